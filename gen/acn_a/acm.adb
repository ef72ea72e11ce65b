pragma Style_Checks (Off);
--  Code automatically generated by asn1scc tool

pragma Warnings (Off, """String"" is already use-visible inside package ""Standard""");

pragma Warnings (Off, "redundant with clause in body");

pragma Warnings (Off, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (Off, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (Off, "unit ""adaasn1rtl.encoding.uper"" is not referenced");
with adaasn1rtl.encoding.uper;
pragma Warnings (On, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (On, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (On, "unit ""adaasn1rtl.encoding.uper"" is not referenced");


pragma Warnings (Off, "no entities of ""adaasn1rtl.encoding.acn"" are referenced");
pragma Warnings (Off, "use clause for package ""adaasn1rtl.encoding.acn"" has no effect");
pragma Warnings (Off, "unit ""adaasn1rtl.encoding.acn"" is not referenced");
with adaasn1rtl.encoding.acn;
pragma Warnings (On, "no entities of ""adaasn1rtl.encoding.acn"" are referenced");
pragma Warnings (On, "use clause for package ""adaasn1rtl.encoding.acn"" has no effect");
pragma Warnings (On, "unit ""adaasn1rtl.encoding.acn"" is not referenced");

pragma Warnings (On, "redundant with clause in body");

package body ACM with SPARK_Mode is


pragma Warnings (Off, "condition can only be False if invalid values present");
pragma Warnings (Off, "condition can only be True if invalid values present");


function P5_Equal (val1, val2 :  P5) return Boolean
is

begin
	return val1 = val2;

end P5_Equal;

function P5_IsConstraintValid(val : P5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P5);
    return ret;
end P5_IsConstraintValid;



procedure P5_ACN_Encode_aux(val : P5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, val, 5);
    end if;
end P5_ACN_Encode_aux;
procedure P5_ACN_Encode(val : P5; Stream : out P5_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P5_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P5_ACN_Encode_aux directly).
    Stream := P5_ACN_Stream'(Size_In_Bytes => P5_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P5_ACN_Encode_aux(val, Stream, result); 
end P5_ACN_Encode; 

procedure P5_ACN_Decode_aux(val:out P5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, val, 0, 31, 5, result);
    result.ErrorCode := ERR_ACN_DECODE_P5;

end P5_ACN_Decode_aux;
PROCEDURE P5_ACN_Decode(val: out P5; Stream : in out P5_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P5_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P5_IsConstraintValid(val);
    end if;

end P5_ACN_Decode; 



function DSz_d_o_Equal (val1, val2 :  DSz_d_o) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end DSz_d_o_Equal;

function DSz_d_m_Equal (val1, val2 :  DSz_d_m) return Boolean
is

begin
	return val1 = val2;

end DSz_d_m_Equal;

function DSz_d_b_Equal (val1, val2 :  DSz_d_b) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end DSz_d_b_Equal;

function DSz_d_q_Equal (val1, val2 :  DSz_d_q) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end DSz_d_q_Equal;

function DSz_d_s_Equal (val1, val2 :  DSz_d_s) return Boolean
is

begin
	return val1 = val2;

end DSz_d_s_Equal;

function DSz_d_t_Equal (val1, val2 :  DSz_d_t) return Boolean
is

begin
	return val1 = val2;

end DSz_d_t_Equal;

function DSz_Equal (val1, val2 :  DSz) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DSz_d_o_Equal(val1.d_o, val2.d_o);

    if ret then
        ret := DSz_d_m_Equal(val1.d_m, val2.d_m);

        if ret then
            ret := DSz_d_b_Equal(val1.d_b, val2.d_b);

            if ret then
                ret := DSz_d_q_Equal(val1.d_q, val2.d_q);

                if ret then
                    ret := DSz_d_s_Equal(val1.d_s, val2.d_s);

                    if ret then
                        ret := DSz_d_t_Equal(val1.d_t, val2.d_t);

                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end DSz_Equal;

function DSz_d_o_IsConstraintValid(val : DSz_d_o) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 60);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_O);
    return ret;
end DSz_d_o_IsConstraintValid;

function DSz_d_m_IsConstraintValid(val : DSz_d_m) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_M);
    return ret;
end DSz_d_m_IsConstraintValid;

function DSz_d_b_IsConstraintValid(val : DSz_d_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 90);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_B);
    return ret;
end DSz_d_b_IsConstraintValid;

function DSz_d_q_IsConstraintValid(val : DSz_d_q) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 9);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_Q);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := P5_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end DSz_d_q_IsConstraintValid;

function DSz_d_s_IsConstraintValid(val : DSz_d_s) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 15);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_S);
    return ret;
end DSz_d_s_IsConstraintValid;

function DSz_d_t_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (('A' <= str(i)) AND (str(i) <= 'Z'));
        I := I + 1;
    end loop;
    return ret;
end DSz_d_t_CharsAreValid_0;
function DSz_d_t_IsConstraintValid(val : DSz_d_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 6);
    if ret.Success then
        ret.Success := DSz_d_t_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSZ_D_T);
    return ret;
end DSz_d_t_IsConstraintValid;

function DSz_IsConstraintValid(val : DSz) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DSz_d_o_IsConstraintValid(val.d_o);
    if ret.Success then
        ret := DSz_d_m_IsConstraintValid(val.d_m);
        if ret.Success then
            ret := DSz_d_b_IsConstraintValid(val.d_b);
            if ret.Success then
                ret := DSz_d_q_IsConstraintValid(val.d_q);
                if ret.Success then
                    ret := DSz_d_s_IsConstraintValid(val.d_s);
                    if ret.Success then
                        ret := DSz_d_t_IsConstraintValid(val.d_t);
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end DSz_IsConstraintValid;









procedure DSz_ACN_Encode_aux(val : DSz; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DSz_len_o:adaasn1rtl.Asn1UInt;
    DSz_len_o_is_initialized:Boolean:=False;
    DSz_len_b:adaasn1rtl.Asn1UInt;
    DSz_len_b_is_initialized:Boolean:=False;
    DSz_len_q:adaasn1rtl.Asn1UInt;
    DSz_len_q_is_initialized:Boolean:=False;
    DSz_len_s:adaasn1rtl.Asn1UInt;
    DSz_len_s_is_initialized:Boolean:=False;
    DSz_len_t:adaasn1rtl.Asn1UInt;
    DSz_len_t_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DSz_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        DSz_len_o_is_initialized := True;
        DSz_len_o := adaasn1rtl.Asn1UInt(val.d_o.Length);

        if result.Success then
            --Encode DSz_len_o
            if DSz_len_o_is_initialized then
                result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DSz_len_o);
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSZ_LEN_O_UNINITIALIZED); --COVERAGE_IGNORE
            end if;
        end if;
        if result.Success then
            -- Encode d_o
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.d_o.Data, Integer(val.d_o.Length));
            if result.Success then
                DSz_len_b_is_initialized := True;
                DSz_len_b := adaasn1rtl.Asn1UInt(val.d_b.Length);

                if result.Success then
                    --Encode DSz_len_b
                    if DSz_len_b_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(bs, DSz_len_b);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSZ_LEN_B_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode d_m
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.d_m, 0, 2);
                    if result.Success then
                        -- Encode d_b
                        adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.d_b.Data, Integer(DSz_len_b));
                        if result.Success then
                            DSz_len_q_is_initialized := True;
                            DSz_len_q := adaasn1rtl.Asn1UInt(val.d_q.Length);

                            if result.Success then
                                --Encode DSz_len_q
                                if DSz_len_q_is_initialized then
                                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DSz_len_q, 5);
                                else
                                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSZ_LEN_Q_UNINITIALIZED); --COVERAGE_IGNORE
                                end if;
                            end if;
                            if result.Success then
                                DSz_len_s_is_initialized := True;
                                DSz_len_s := adaasn1rtl.Asn1UInt(adaasn1rtl.getStringSize(val.d_s));
                                result.success := DSz_len_s >= 0 and DSz_len_s <= 15;

                                if result.Success then
                                    --Encode DSz_len_s
                                    if DSz_len_s_is_initialized then
                                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                                        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DSz_len_s);
                                    else
                                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSZ_LEN_S_UNINITIALIZED); --COVERAGE_IGNORE
                                    end if;
                                end if;
                                if result.Success then
                                    -- Encode d_q
                                    i1 := 1;
                                    while i1<= val.d_q.Length loop
                                        pragma Loop_Invariant (i1 >=1 and i1<=val.d_q.Length);
                                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                                        P5_ACN_Encode_aux(val.d_q.Data(i1), bs, result);
                                        i1 := i1 + 1;
                                    end loop;
                                    if result.Success then
                                        -- Encode d_s
                                        adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, DSz_d_s_alpha_set, 7, val.d_s);
                                        if result.Success then
                                            DSz_len_t_is_initialized := True;
                                            DSz_len_t := adaasn1rtl.Asn1UInt(adaasn1rtl.getStringSize(val.d_t));
                                            result.success := DSz_len_t >= 0 and DSz_len_t <= 6;

                                            if result.Success then
                                                --Encode DSz_len_t
                                                if DSz_len_t_is_initialized then
                                                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                                                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DSz_len_t, 3);
                                                else
                                                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSZ_LEN_T_UNINITIALIZED); --COVERAGE_IGNORE
                                                end if;
                                            end if;
                                            if result.Success then
                                                -- Encode d_t
                                                adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_External_Field_Determinant(bs, val.d_t);
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DSz_ACN_Encode_aux;
procedure DSz_ACN_Encode(val : DSz; Stream : out DSz_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DSz_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DSz_ACN_Encode_aux directly).
    Stream := DSz_ACN_Stream'(Size_In_Bytes => DSz_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DSz_ACN_Encode_aux(val, Stream, result); 
end DSz_ACN_Encode; 

procedure DSz_ACN_Decode_aux(val:out DSz; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DSz_len_o:adaasn1rtl.Asn1UInt;
    DSz_len_b:adaasn1rtl.Asn1UInt;
    DSz_len_q:adaasn1rtl.Asn1UInt;
    DSz_len_s:adaasn1rtl.Asn1UInt;
    DSz_len_t:adaasn1rtl.Asn1UInt;
    i1:Integer;
begin
    -- Decode DSz_len_o
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DSz_len_o, 0, 255, result);
    result.ErrorCode := ERR_ACN_DECODE_DSZ_LEN_O;

    if result.Success then
        -- Decode d_o
        result := adaasn1rtl.ASN1_RESULT'(Success => DSz_len_o<=60, ErrorCode => ERR_ACN_DECODE_DSZ_D_O);
        if result.Success then
            val.d_o.Length := Integer(DSz_len_o);
            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.d_o.Data, Integer(val.d_o.Length), result.success);
        end if;
        if result.Success then
            -- Decode DSz_len_b
            adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(bs, DSz_len_b, 0, 65535, result);
            result.ErrorCode := ERR_ACN_DECODE_DSZ_LEN_B;

            if result.Success then
                -- Decode d_m
                result.ErrorCode := ERR_ACN_DECODE_DSZ_D_M;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.d_m, 0, 3, 2, result.Success);
                if result.Success then
                    -- Decode d_b
                    result := adaasn1rtl.ASN1_RESULT'(Success => DSz_len_b<=90, ErrorCode => ERR_ACN_DECODE_DSZ_D_B);
                    if result.Success then
                       val.d_b.Length := Integer(DSz_len_b);
                        adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.d_b.Data, Integer(DSz_len_b), result.success);
                    end if;
                    if result.Success then
                        -- Decode DSz_len_q
                        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DSz_len_q, 0, 31, 5, result);
                        result.ErrorCode := ERR_ACN_DECODE_DSZ_LEN_Q;

                        if result.Success then
                            -- Decode DSz_len_s
                            adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DSz_len_s, 0, 255, result);
                            result.ErrorCode := ERR_ACN_DECODE_DSZ_LEN_S;

                            if result.Success then
                                -- Decode d_q
                                result := adaasn1rtl.ASN1_RESULT'(Success => DSz_len_q<=9, ErrorCode => ERR_ACN_DECODE_DSZ_D_Q);
                                if result.Success then
                                    val.d_q.Length := Integer(DSz_len_q);
                                    i1 := 1;
                                    while i1<= val.d_q.Length AND result.Success loop
                                        pragma Loop_Invariant (i1 >=1 and i1<=val.d_q.Length);
                                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                                        P5_ACN_Decode_aux(val.d_q.Data(i1), bs, result);
                                        i1 := i1 + 1;
                                    end loop;
                                end if;
                                if result.Success then
                                    -- Decode d_s
                                    adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, DSz_d_s_alpha_set, 7, adaasn1rtl.Asn1Int(DSz_len_s), val.d_s, result);
                                    result.ErrorCode := ERR_ACN_DECODE_DSZ_D_S;
                                    if result.Success then
                                        -- Decode DSz_len_t
                                        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DSz_len_t, 0, 7, 3, result);
                                        result.ErrorCode := ERR_ACN_DECODE_DSZ_LEN_T;

                                        if result.Success then
                                            -- Decode d_t
                                            adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_External_Field_Determinant(bs, adaasn1rtl.Asn1Int(DSz_len_t), val.d_t, result);
                                            result.ErrorCode := ERR_ACN_DECODE_DSZ_D_T;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DSz_ACN_Decode_aux;
PROCEDURE DSz_ACN_Decode(val: out DSz; Stream : in out DSz_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DSz_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DSz_IsConstraintValid(val);
    end if;

end DSz_ACN_Decode; 



function ALog_Equal (val1, val2 :  ALog) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := DSz_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end ALog_Equal;

function ALog_IsConstraintValid(val : ALog) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 4);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALOG);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := DSz_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end ALog_IsConstraintValid;



procedure ALog_ACN_Encode_aux(val : ALog; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := ALog_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 4;
        result.errorCode := ERR_ACN_ENCODE_ALOG;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 3);
            i1 := 1;
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 810*(i1-1));
                DSz_ACN_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end ALog_ACN_Encode_aux;
procedure ALog_ACN_Encode(val : ALog; Stream : out ALog_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ALog_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ALog_ACN_Encode_aux directly).
    Stream := ALog_ACN_Stream'(Size_In_Bytes => ALog_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ALog_ACN_Encode_aux(val, Stream, result); 
end ALog_ACN_Encode; 

procedure ALog_ACN_Decode_aux(val:out ALog; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    nStringLength:Integer;
begin
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 4, 3, result.Success);
    result.errorCode := ERR_ACN_DECODE_ALOG;
    val.Length := nStringLength;
    i1 := 1;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 810*(i1-1));
        DSz_ACN_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end ALog_ACN_Decode_aux;
PROCEDURE ALog_ACN_Decode(val: out ALog; Stream : in out ALog_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ALog_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ALog_IsConstraintValid(val);
    end if;

end ALog_ACN_Decode; 



function P8_Equal (val1, val2 :  P8) return Boolean
is

begin
	return val1 = val2;

end P8_Equal;

function P8_IsConstraintValid(val : P8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 255);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P8);
    return ret;
end P8_IsConstraintValid;



procedure P8_ACN_Encode_aux(val : P8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val);
    end if;
end P8_ACN_Encode_aux;
procedure P8_ACN_Encode(val : P8; Stream : out P8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P8_ACN_Encode_aux directly).
    Stream := P8_ACN_Stream'(Size_In_Bytes => P8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P8_ACN_Encode_aux(val, Stream, result); 
end P8_ACN_Encode; 

procedure P8_ACN_Decode_aux(val:out P8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val, 0, 255, result);
    result.ErrorCode := ERR_ACN_DECODE_P8;

end P8_ACN_Decode_aux;
PROCEDURE P8_ACN_Decode(val: out P8; Stream : in out P8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P8_IsConstraintValid(val);
    end if;

end P8_ACN_Decode; 



function Body_1_b_m_Equal (val1, val2 :  Body_1_b_m) return Boolean
is

begin
	return val1 = val2;

end Body_1_b_m_Equal;

function Body_1_b_o_Equal (val1, val2 :  Body_1_b_o) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end Body_1_b_o_Equal;

function Body_1_Equal (val1, val2 :  Body_1) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Body_1_b_m_Equal(val1.b_m, val2.b_m);

    if ret then
        ret := Body_1_b_o_Equal(val1.b_o, val2.b_o);

        if ret then
            ret := val1.Exist.b_p = val2.Exist.b_p;
            if ret and then val1.Exist.b_p = 1 then
                ret := (val1.b_p = val2.b_p);
            end if;

        end if;
    end if;
	return ret;

end Body_1_Equal;

function Body_1_b_m_IsConstraintValid(val : Body_1_b_m) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BODY_B_M);
    return ret;
end Body_1_b_m_IsConstraintValid;

function Body_1_b_o_IsConstraintValid(val : Body_1_b_o) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BODY_B_O);
    return ret;
end Body_1_b_o_IsConstraintValid;

function Body_1_IsConstraintValid(val : Body_1) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Body_1_b_m_IsConstraintValid(val.b_m);
    if ret.Success then
        ret := Body_1_b_o_IsConstraintValid(val.b_o);
        if ret.Success then
            if val.Exist.b_p = 1 then
                ret := P8_IsConstraintValid(val.b_p);
            end if;
        end if;
    end if;
    return ret;
end Body_1_IsConstraintValid;







function PktI_hdr_h_ver_Equal (val1, val2 :  PktI_hdr_h_ver) return Boolean
is

begin
	return val1 = val2;

end PktI_hdr_h_ver_Equal;

function PktI_hdr_h_end_Equal (val1, val2 :  PktI_hdr_h_end) return Boolean
is

begin
	return val1 = val2;

end PktI_hdr_h_end_Equal;

function PktI_hdr_Equal (val1, val2 :  PktI_hdr) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := PktI_hdr_h_ver_Equal(val1.h_ver, val2.h_ver);

    if ret then
        ret := PktI_hdr_h_end_Equal(val1.h_end, val2.h_end);

    end if;
	return ret;

end PktI_hdr_Equal;

function PktI_Equal (val1, val2 :  PktI) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := PktI_hdr_Equal(val1.hdr, val2.hdr);

    if ret then
        ret := Body_1_Equal(val1.bdy, val2.bdy);

        if ret then
            ret := (val1.trail = val2.trail);

        end if;
    end if;
	return ret;

end PktI_Equal;

function PktI_hdr_h_ver_IsConstraintValid(val : PktI_hdr_h_ver) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PKTI_HDR_H_VER);
    return ret;
end PktI_hdr_h_ver_IsConstraintValid;

function PktI_hdr_h_end_IsConstraintValid(val : PktI_hdr_h_end) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PKTI_HDR_H_END);
    return ret;
end PktI_hdr_h_end_IsConstraintValid;

function PktI_hdr_IsConstraintValid(val : PktI_hdr) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := PktI_hdr_h_ver_IsConstraintValid(val.h_ver);
    if ret.Success then
        ret := PktI_hdr_h_end_IsConstraintValid(val.h_end);
    end if;
    return ret;
end PktI_hdr_IsConstraintValid;

function PktI_IsConstraintValid(val : PktI) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := PktI_hdr_IsConstraintValid(val.hdr);
    if ret.Success then
        ret := Body_1_IsConstraintValid(val.bdy);
        if ret.Success then
            ret := P8_IsConstraintValid(val.trail);
        end if;
    end if;
    return ret;
end PktI_IsConstraintValid;






procedure PktI_ACN_Encode_aux(val : PktI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    PktI_hdr_plen1:adaasn1rtl.Asn1UInt;
    PktI_hdr_plen1_is_initialized:Boolean:=False;
    PktI_hdr_pfl1:adaasn1rtl.Asn1Boolean;
    PktI_hdr_pfl1_is_initialized:Boolean:=False;
begin
    result := PktI_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode hdr
        -- Encode h_ver
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.hdr.h_ver, 0, 3);
        if result.Success then
            PktI_hdr_plen1_is_initialized := True;
            PktI_hdr_plen1 := adaasn1rtl.Asn1UInt(val.bdy.b_o.Length);

            if result.Success then
                --Encode PktI_hdr_plen1
                if PktI_hdr_plen1_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, PktI_hdr_plen1);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_PKTI_HDR_PLEN1_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                PktI_hdr_pfl1_is_initialized := True;
                PktI_hdr_pfl1 := (val.bdy.exist.b_p = 1);
                if result.Success then
                    --Encode PktI_hdr_pfl1
                    if PktI_hdr_pfl1_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, PktI_hdr_pfl1);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_PKTI_HDR_PFL1_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode h_end
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.hdr.h_end, 0, 2);
                end if;
            end if;
        end if;
        if result.Success then
            -- Encode bdy
            -- Encode b_m
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.bdy.b_m, 0, 3);
            if result.Success then
                -- Encode b_o
                adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.bdy.b_o.Data, Integer(val.bdy.b_o.Length));
                if result.Success then
                    -- Encode b_p
                    if val.bdy.Exist.b_p = 1 then
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.bdy.b_p);
                    end if;
                end if;
            end if;
            if result.Success then
                -- Encode trail
                P8_ACN_Encode_aux(val.trail, bs, result);
            end if;
        end if;
    end if;
end PktI_ACN_Encode_aux;
procedure PktI_ACN_Encode(val : PktI; Stream : out PktI_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to PktI_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke PktI_ACN_Encode_aux directly).
    Stream := PktI_ACN_Stream'(Size_In_Bytes => PktI_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    PktI_ACN_Encode_aux(val, Stream, result); 
end PktI_ACN_Encode; 

procedure PktI_ACN_Decode_aux(val:out PktI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    PktI_hdr_plen1:adaasn1rtl.Asn1UInt;
    PktI_hdr_pfl1:adaasn1rtl.Asn1Boolean;
begin
    -- Decode hdr
    -- Decode h_ver
    result.ErrorCode := ERR_ACN_DECODE_PKTI_HDR_H_VER;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.hdr.h_ver, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode PktI_hdr_plen1
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, PktI_hdr_plen1, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_PKTI_HDR_PLEN1;

        if result.Success then
            -- Decode PktI_hdr_pfl1
            result.ErrorCode := ERR_ACN_DECODE_PKTI_HDR_PFL1;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, PktI_hdr_pfl1, result.Success);
            if result.Success then
                -- Decode h_end
                result.ErrorCode := ERR_ACN_DECODE_PKTI_HDR_H_END;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.hdr.h_end, 0, 3, 2, result.Success);
            end if;
        end if;
    end if;
    if result.Success then
        -- Decode bdy
        -- Decode b_m
        result.ErrorCode := ERR_ACN_DECODE_PKTI_BDY_B_M;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.bdy.b_m, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode b_o
            result := adaasn1rtl.ASN1_RESULT'(Success => PktI_hdr_plen1<=20, ErrorCode => ERR_ACN_DECODE_PKTI_BDY_B_O);
            if result.Success then
                val.bdy.b_o.Length := Integer(PktI_hdr_plen1);
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.bdy.b_o.Data, Integer(val.bdy.b_o.Length), result.success);
            end if;
            if result.Success then
                val.bdy.Exist.b_p := (if PktI_hdr_pfl1 then 1 else 0);
                result.Success := true;
                -- Decode b_p
                if val.bdy.Exist.b_p = 1 then
                	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.bdy.b_p, 0, 255, result);
                	result.ErrorCode := ERR_ACN_DECODE_PKTI_BDY_B_P;

                end if;
            end if;
        end if;
        if result.Success then
            -- Decode trail
            P8_ACN_Decode_aux(val.trail, bs, result);
        end if;
    end if;
end PktI_ACN_Decode_aux;
PROCEDURE PktI_ACN_Decode(val: out PktI; Stream : in out PktI_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    PktI_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := PktI_IsConstraintValid(val);
    end if;

end PktI_ACN_Decode; 



function CnF_a_Equal (val1, val2 :  CnF_a) return Boolean
is

begin
	return val1 = val2;

end CnF_a_Equal;

function CnF_Equal (val1, val2 :  CnF) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnF_a_Equal(val1.a, val2.a);

    if ret then
        ret := (val1.b = val2.b);

    end if;
	return ret;

end CnF_Equal;

function CnF_a_IsConstraintValid(val : CnF_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNF_A);
    return ret;
end CnF_a_IsConstraintValid;

function CnF_IsConstraintValid(val : CnF) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnF_a_IsConstraintValid(val.a);
    if ret.Success then
        ret := P8_IsConstraintValid(val.b);
    end if;
    return ret;
end CnF_IsConstraintValid;




procedure CnF_ACN_Encode_aux(val : CnF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode a
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a, 0, 3);
        if result.Success then
            -- Encode b
            P8_ACN_Encode_aux(val.b, bs, result);
        end if;
    end if;
end CnF_ACN_Encode_aux;
procedure CnF_ACN_Encode(val : CnF; Stream : out CnF_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnF_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnF_ACN_Encode_aux directly).
    Stream := CnF_ACN_Stream'(Size_In_Bytes => CnF_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnF_ACN_Encode_aux(val, Stream, result); 
end CnF_ACN_Encode; 

procedure CnF_ACN_Decode_aux(val:out CnF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode a
    result.ErrorCode := ERR_ACN_DECODE_CNF_A;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode b
        P8_ACN_Decode_aux(val.b, bs, result);
    end if;
end CnF_ACN_Decode_aux;
PROCEDURE CnF_ACN_Decode(val: out CnF; Stream : in out CnF_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnF_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnF_IsConstraintValid(val);
    end if;

end CnF_ACN_Decode; 



function CnX_p_Equal (val1, val2 :  CnX_p) return Boolean
is

begin
	return val1 = val2;

end CnX_p_Equal;

function CnX_t_Equal (val1, val2 :  CnX_t) return Boolean
is

begin
	return val1 = val2;

end CnX_t_Equal;

function CnX_Equal (val1, val2 :  CnX) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnX_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnF_Equal(val1.c, val2.c);

        if ret then
            ret := val1.Exist.d = val2.Exist.d;
            if ret and then val1.Exist.d = 1 then
                ret := CnF_Equal(val1.d, val2.d);
            end if;

            if ret then
                ret := CnX_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end CnX_Equal;

function CnX_p_IsConstraintValid(val : CnX_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNX_P);
    return ret;
end CnX_p_IsConstraintValid;

function CnX_t_IsConstraintValid(val : CnX_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNX_T);
    return ret;
end CnX_t_IsConstraintValid;

function CnX_IsConstraintValid(val : CnX) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnX_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnF_IsConstraintValid(val.c);
        if ret.Success then
            if val.Exist.d = 1 then
                ret := CnF_IsConstraintValid(val.d);
            end if;
            if ret.Success then
                ret := CnX_t_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end CnX_IsConstraintValid;





procedure CnX_ACN_Encode_aux(val : CnX; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnX_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.d);
        if result.Success then
            -- Encode p
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
            if result.Success then
                -- Encode c
                --open new scope to declare some variables
                declare
                    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ACN_ENCODING);
                	data_length : Integer;
                begin
                	--encode value to a temporary bit stream
                	CnF_ACN_Encode_aux(val.c, tmpBs, result);
                	if result.success then
                		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
                        adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length (bs, tmpBs.Buffer, data_length);

                	end if;
                end;
                if result.Success then
                    -- Encode d
                    if val.Exist.d = 1 then
                    	--open new scope to declare some variables
                    	declare
                    	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ACN_ENCODING);
                    		data_length : Integer;
                    	begin
                    		--encode value to a temporary bit stream
                    		CnF_ACN_Encode_aux(val.d, tmpBs, result);
                    		if result.success then
                    			data_length := tmpBs.Current_Bit_Pos;
                    	        adaasn1rtl.encoding.BitStream_AppendBits (bs, tmpBs.Buffer, data_length);

                    		end if;
                    	end;
                    end if;
                    if result.Success then
                        -- Encode t
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                    end if;
                end if;
            end if;
        end if;
    end if;
end CnX_ACN_Encode_aux;
procedure CnX_ACN_Encode(val : CnX; Stream : out CnX_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnX_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnX_ACN_Encode_aux directly).
    Stream := CnX_ACN_Stream'(Size_In_Bytes => CnX_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnX_ACN_Encode_aux(val, Stream, result); 
end CnX_ACN_Encode; 

procedure CnX_ACN_Decode_aux(val:out CnX; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    d_exist:adaasn1rtl.BIT;
begin
    result.ErrorCode := ERR_ACN_DECODE_CNX;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, d_exist, result.Success);
    val.Exist.d := d_exist;
    if result.Success then
        -- Decode p
        result.ErrorCode := ERR_ACN_DECODE_CNX_P;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ACN_ENCODING);
            begin
            	--decode to a temporary bitstream
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length (bs, tmpBs.Buffer, 2, result.success);
            	if result.success then
            		CnF_ACN_Decode_aux(val.c, tmpBs, result);
            	end if;

            end;
            if result.Success then
                -- Decode d
                if val.Exist.d = 1 then
                	--open new scope to declare some variables
                	declare
                	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ACN_ENCODING);
                	begin
                		--decode to a temporary bitstream
                	    adaasn1rtl.encoding.BitStream_ReadBits (bs, tmpBs.Buffer, 11, result.success);
                		if result.success then
                			CnF_ACN_Decode_aux(val.d, tmpBs, result);
                		end if;

                	end;
                end if;
                if result.Success then
                    -- Decode t
                    result.ErrorCode := ERR_ACN_DECODE_CNX_T;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
                end if;
            end if;
        end if;
    end if;
end CnX_ACN_Decode_aux;
PROCEDURE CnX_ACN_Decode(val: out CnX; Stream : in out CnX_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnX_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnX_IsConstraintValid(val);
    end if;

end CnX_ACN_Decode; 



function P16_Equal (val1, val2 :  P16) return Boolean
is

begin
	return val1 = val2;

end P16_Equal;

function P16_IsConstraintValid(val : P16) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 65535);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P16);
    return ret;
end P16_IsConstraintValid;



procedure P16_ACN_Encode_aux(val : P16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P16_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, val);
    end if;
end P16_ACN_Encode_aux;
procedure P16_ACN_Encode(val : P16; Stream : out P16_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P16_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P16_ACN_Encode_aux directly).
    Stream := P16_ACN_Stream'(Size_In_Bytes => P16_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P16_ACN_Encode_aux(val, Stream, result); 
end P16_ACN_Encode; 

procedure P16_ACN_Decode_aux(val:out P16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, val, 0, 65535, result);
    result.ErrorCode := ERR_ACN_DECODE_P16;

end P16_ACN_Decode_aux;
PROCEDURE P16_ACN_Decode(val: out P16; Stream : in out P16_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P16_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P16_IsConstraintValid(val);
    end if;

end P16_ACN_Decode; 



function P16L_Equal (val1, val2 :  P16L) return Boolean
is

begin
	return val1 = val2;

end P16L_Equal;

function P16L_IsConstraintValid(val : P16L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 65535);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P16L);
    return ret;
end P16L_IsConstraintValid;



procedure P16L_ACN_Encode_aux(val : P16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P16L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(bs, val);
    end if;
end P16L_ACN_Encode_aux;
procedure P16L_ACN_Encode(val : P16L; Stream : out P16L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P16L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P16L_ACN_Encode_aux directly).
    Stream := P16L_ACN_Stream'(Size_In_Bytes => P16L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P16L_ACN_Encode_aux(val, Stream, result); 
end P16L_ACN_Encode; 

procedure P16L_ACN_Decode_aux(val:out P16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(bs, val, 0, 65535, result);
    result.ErrorCode := ERR_ACN_DECODE_P16L;

end P16L_ACN_Decode_aux;
PROCEDURE P16L_ACN_Decode(val: out P16L; Stream : in out P16L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P16L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P16L_IsConstraintValid(val);
    end if;

end P16L_ACN_Decode; 



function P32_Equal (val1, val2 :  P32) return Boolean
is

begin
	return val1 = val2;

end P32_Equal;

function P32_IsConstraintValid(val : P32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 4294967295);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P32);
    return ret;
end P32_IsConstraintValid;



procedure P32_ACN_Encode_aux(val : P32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(bs, val);
    end if;
end P32_ACN_Encode_aux;
procedure P32_ACN_Encode(val : P32; Stream : out P32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P32_ACN_Encode_aux directly).
    Stream := P32_ACN_Stream'(Size_In_Bytes => P32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P32_ACN_Encode_aux(val, Stream, result); 
end P32_ACN_Encode; 

procedure P32_ACN_Decode_aux(val:out P32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(bs, val, 0, 4294967295, result);
    result.ErrorCode := ERR_ACN_DECODE_P32;

end P32_ACN_Decode_aux;
PROCEDURE P32_ACN_Decode(val: out P32; Stream : in out P32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P32_IsConstraintValid(val);
    end if;

end P32_ACN_Decode; 



function P32L_Equal (val1, val2 :  P32L) return Boolean
is

begin
	return val1 = val2;

end P32L_Equal;

function P32L_IsConstraintValid(val : P32L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 4294967295);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P32L);
    return ret;
end P32L_IsConstraintValid;



procedure P32L_ACN_Encode_aux(val : P32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P32L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(bs, val);
    end if;
end P32L_ACN_Encode_aux;
procedure P32L_ACN_Encode(val : P32L; Stream : out P32L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P32L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P32L_ACN_Encode_aux directly).
    Stream := P32L_ACN_Stream'(Size_In_Bytes => P32L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P32L_ACN_Encode_aux(val, Stream, result); 
end P32L_ACN_Encode; 

procedure P32L_ACN_Decode_aux(val:out P32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(bs, val, 0, 4294967295,  result);
    result.ErrorCode := ERR_ACN_DECODE_P32L;

end P32L_ACN_Decode_aux;
PROCEDURE P32L_ACN_Decode(val: out P32L; Stream : in out P32L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P32L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P32L_IsConstraintValid(val);
    end if;

end P32L_ACN_Decode; 



function P64_Equal (val1, val2 :  P64) return Boolean
is

begin
	return val1 = val2;

end P64_Equal;

function P64_IsConstraintValid(val : P64) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end P64_IsConstraintValid;



procedure P64_ACN_Encode_aux(val : P64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P64_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(bs, val);
    end if;
end P64_ACN_Encode_aux;
procedure P64_ACN_Encode(val : P64; Stream : out P64_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P64_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P64_ACN_Encode_aux directly).
    Stream := P64_ACN_Stream'(Size_In_Bytes => P64_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P64_ACN_Encode_aux(val, Stream, result); 
end P64_ACN_Encode; 

procedure P64_ACN_Decode_aux(val:out P64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(bs, val, 0, 18446744073709551615, result);
    result.ErrorCode := ERR_ACN_DECODE_P64;

end P64_ACN_Decode_aux;
PROCEDURE P64_ACN_Decode(val: out P64; Stream : in out P64_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P64_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P64_IsConstraintValid(val);
    end if;

end P64_ACN_Decode; 



function P64L_Equal (val1, val2 :  P64L) return Boolean
is

begin
	return val1 = val2;

end P64L_Equal;

function P64L_IsConstraintValid(val : P64L) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end P64L_IsConstraintValid;



procedure P64L_ACN_Encode_aux(val : P64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P64L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(bs, val);
    end if;
end P64L_ACN_Encode_aux;
procedure P64L_ACN_Encode(val : P64L; Stream : out P64L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P64L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P64L_ACN_Encode_aux directly).
    Stream := P64L_ACN_Stream'(Size_In_Bytes => P64L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P64L_ACN_Encode_aux(val, Stream, result); 
end P64L_ACN_Encode; 

procedure P64L_ACN_Decode_aux(val:out P64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(bs, val, 0, 18446744073709551615, result);
    result.ErrorCode := ERR_ACN_DECODE_P64L;

end P64L_ACN_Decode_aux;
PROCEDURE P64L_ACN_Decode(val: out P64L; Stream : in out P64L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P64L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P64L_IsConstraintValid(val);
    end if;

end P64L_ACN_Decode; 



function P37_Equal (val1, val2 :  P37) return Boolean
is

begin
	return val1 = val2;

end P37_Equal;

function P37_IsConstraintValid(val : P37) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 137438953471);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P37);
    return ret;
end P37_IsConstraintValid;



procedure P37_ACN_Encode_aux(val : P37; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P37_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, val, 37);
    end if;
end P37_ACN_Encode_aux;
procedure P37_ACN_Encode(val : P37; Stream : out P37_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P37_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P37_ACN_Encode_aux directly).
    Stream := P37_ACN_Stream'(Size_In_Bytes => P37_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P37_ACN_Encode_aux(val, Stream, result); 
end P37_ACN_Encode; 

procedure P37_ACN_Decode_aux(val:out P37; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, val, 0, 137438953471, 37, result);
    result.ErrorCode := ERR_ACN_DECODE_P37;

end P37_ACN_Decode_aux;
PROCEDURE P37_ACN_Decode(val: out P37; Stream : in out P37_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P37_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P37_IsConstraintValid(val);
    end if;

end P37_ACN_Decode; 



function P24_Equal (val1, val2 :  P24) return Boolean
is

begin
	return val1 = val2;

end P24_Equal;

function P24_IsConstraintValid(val : P24) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((3 <= val) AND (val <= 16777211));
    ret.ErrorCode := (if ret.Success then 0 else ERR_P24);
    return ret;
end P24_IsConstraintValid;



procedure P24_ACN_Encode_aux(val : P24; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P24_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, val, 24);
    end if;
end P24_ACN_Encode_aux;
procedure P24_ACN_Encode(val : P24; Stream : out P24_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P24_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P24_ACN_Encode_aux directly).
    Stream := P24_ACN_Stream'(Size_In_Bytes => P24_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P24_ACN_Encode_aux(val, Stream, result); 
end P24_ACN_Encode; 

procedure P24_ACN_Decode_aux(val:out P24; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, val, 3, 16777211, 24, result);
    result.ErrorCode := ERR_ACN_DECODE_P24;

end P24_ACN_Decode_aux;
PROCEDURE P24_ACN_Decode(val: out P24; Stream : in out P24_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P24_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P24_IsConstraintValid(val);
    end if;

end P24_ACN_Decode; 



function T5_Equal (val1, val2 :  T5) return Boolean
is

begin
	return val1 = val2;

end T5_Equal;

function T5_IsConstraintValid(val : T5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-16 <= val) AND (val <= 15));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T5);
    return ret;
end T5_IsConstraintValid;



procedure T5_ACN_Encode_aux(val : T5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, val, 5);
    end if;
end T5_ACN_Encode_aux;
procedure T5_ACN_Encode(val : T5; Stream : out T5_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T5_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T5_ACN_Encode_aux directly).
    Stream := T5_ACN_Stream'(Size_In_Bytes => T5_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T5_ACN_Encode_aux(val, Stream, result); 
end T5_ACN_Encode; 

procedure T5_ACN_Decode_aux(val:out T5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, val, -16, 15, 5, result);
    result.ErrorCode := ERR_ACN_DECODE_T5;

end T5_ACN_Decode_aux;
PROCEDURE T5_ACN_Decode(val: out T5; Stream : in out T5_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T5_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T5_IsConstraintValid(val);
    end if;

end T5_ACN_Decode; 



function T8_Equal (val1, val2 :  T8) return Boolean
is

begin
	return val1 = val2;

end T8_Equal;

function T8_IsConstraintValid(val : T8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-128 <= val) AND (val <= 127));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T8);
    return ret;
end T8_IsConstraintValid;



procedure T8_ACN_Encode_aux(val : T8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_8(bs, val);
    end if;
end T8_ACN_Encode_aux;
procedure T8_ACN_Encode(val : T8; Stream : out T8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T8_ACN_Encode_aux directly).
    Stream := T8_ACN_Stream'(Size_In_Bytes => T8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T8_ACN_Encode_aux(val, Stream, result); 
end T8_ACN_Encode; 

procedure T8_ACN_Decode_aux(val:out T8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_8(bs, val, -128, 127, result);
    result.ErrorCode := ERR_ACN_DECODE_T8;

end T8_ACN_Decode_aux;
PROCEDURE T8_ACN_Decode(val: out T8; Stream : in out T8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T8_IsConstraintValid(val);
    end if;

end T8_ACN_Decode; 



function T16_Equal (val1, val2 :  T16) return Boolean
is

begin
	return val1 = val2;

end T16_Equal;

function T16_IsConstraintValid(val : T16) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-32768 <= val) AND (val <= 32767));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T16);
    return ret;
end T16_IsConstraintValid;



procedure T16_ACN_Encode_aux(val : T16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T16_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(bs, val);
    end if;
end T16_ACN_Encode_aux;
procedure T16_ACN_Encode(val : T16; Stream : out T16_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T16_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T16_ACN_Encode_aux directly).
    Stream := T16_ACN_Stream'(Size_In_Bytes => T16_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T16_ACN_Encode_aux(val, Stream, result); 
end T16_ACN_Encode; 

procedure T16_ACN_Decode_aux(val:out T16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(bs, val, -32768, 32767, result);
    result.ErrorCode := ERR_ACN_DECODE_T16;

end T16_ACN_Decode_aux;
PROCEDURE T16_ACN_Decode(val: out T16; Stream : in out T16_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T16_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T16_IsConstraintValid(val);
    end if;

end T16_ACN_Decode; 



function ASo_Equal (val1, val2 :  ASo) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end ASo_Equal;

function ASo_IsConstraintValid(val : ASo) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ASO);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := T16_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end ASo_IsConstraintValid;



procedure ASo_ACN_Encode_aux(val : ASo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := ASo_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 7;
        result.errorCode := ERR_ACN_ENCODE_ASO;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 3);
            i1 := 1;
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 16*(i1-1));
                T16_ACN_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end ASo_ACN_Encode_aux;
procedure ASo_ACN_Encode(val : ASo; Stream : out ASo_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ASo_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ASo_ACN_Encode_aux directly).
    Stream := ASo_ACN_Stream'(Size_In_Bytes => ASo_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ASo_ACN_Encode_aux(val, Stream, result); 
end ASo_ACN_Encode; 

procedure ASo_ACN_Decode_aux(val:out ASo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    nStringLength:Integer;
begin
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 7, 3, result.Success);
    result.errorCode := ERR_ACN_DECODE_ASO;
    val.Length := nStringLength;
    i1 := 1;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 16*(i1-1));
        T16_ACN_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end ASo_ACN_Decode_aux;
PROCEDURE ASo_ACN_Decode(val: out ASo; Stream : in out ASo_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ASo_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ASo_IsConstraintValid(val);
    end if;

end ASo_ACN_Decode; 



function T16L_Equal (val1, val2 :  T16L) return Boolean
is

begin
	return val1 = val2;

end T16L_Equal;

function T16L_IsConstraintValid(val : T16L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-32768 <= val) AND (val <= 32767));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T16L);
    return ret;
end T16L_IsConstraintValid;



procedure T16L_ACN_Encode_aux(val : T16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T16L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(bs, val);
    end if;
end T16L_ACN_Encode_aux;
procedure T16L_ACN_Encode(val : T16L; Stream : out T16L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T16L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T16L_ACN_Encode_aux directly).
    Stream := T16L_ACN_Stream'(Size_In_Bytes => T16L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T16L_ACN_Encode_aux(val, Stream, result); 
end T16L_ACN_Encode; 

procedure T16L_ACN_Decode_aux(val:out T16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(bs, val, -32768, 32767, result);
    result.ErrorCode := ERR_ACN_DECODE_T16L;

end T16L_ACN_Decode_aux;
PROCEDURE T16L_ACN_Decode(val: out T16L; Stream : in out T16L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T16L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T16L_IsConstraintValid(val);
    end if;

end T16L_ACN_Decode; 



function T32_Equal (val1, val2 :  T32) return Boolean
is

begin
	return val1 = val2;

end T32_Equal;

function T32_IsConstraintValid(val : T32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-2147483648 <= val) AND (val <= 2147483647));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T32);
    return ret;
end T32_IsConstraintValid;



procedure T32_ACN_Encode_aux(val : T32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(bs, val);
    end if;
end T32_ACN_Encode_aux;
procedure T32_ACN_Encode(val : T32; Stream : out T32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T32_ACN_Encode_aux directly).
    Stream := T32_ACN_Stream'(Size_In_Bytes => T32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T32_ACN_Encode_aux(val, Stream, result); 
end T32_ACN_Encode; 

procedure T32_ACN_Decode_aux(val:out T32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(bs, val, -2147483648, 2147483647, result);
    result.ErrorCode := ERR_ACN_DECODE_T32;

end T32_ACN_Decode_aux;
PROCEDURE T32_ACN_Decode(val: out T32; Stream : in out T32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T32_IsConstraintValid(val);
    end if;

end T32_ACN_Decode; 



function T32L_Equal (val1, val2 :  T32L) return Boolean
is

begin
	return val1 = val2;

end T32L_Equal;

function T32L_IsConstraintValid(val : T32L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-2147483648 <= val) AND (val <= 2147483647));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T32L);
    return ret;
end T32L_IsConstraintValid;



procedure T32L_ACN_Encode_aux(val : T32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T32L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(bs, val);
    end if;
end T32L_ACN_Encode_aux;
procedure T32L_ACN_Encode(val : T32L; Stream : out T32L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T32L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T32L_ACN_Encode_aux directly).
    Stream := T32L_ACN_Stream'(Size_In_Bytes => T32L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T32L_ACN_Encode_aux(val, Stream, result); 
end T32L_ACN_Encode; 

procedure T32L_ACN_Decode_aux(val:out T32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(bs, val, -2147483648, 2147483647, result);
    result.ErrorCode := ERR_ACN_DECODE_T32L;

end T32L_ACN_Decode_aux;
PROCEDURE T32L_ACN_Decode(val: out T32L; Stream : in out T32L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T32L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T32L_IsConstraintValid(val);
    end if;

end T32L_ACN_Decode; 



function T64_Equal (val1, val2 :  T64) return Boolean
is

begin
	return val1 = val2;

end T64_Equal;

function T64_IsConstraintValid(val : T64) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end T64_IsConstraintValid;



procedure T64_ACN_Encode_aux(val : T64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T64_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(bs, val);
    end if;
end T64_ACN_Encode_aux;
procedure T64_ACN_Encode(val : T64; Stream : out T64_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T64_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T64_ACN_Encode_aux directly).
    Stream := T64_ACN_Stream'(Size_In_Bytes => T64_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T64_ACN_Encode_aux(val, Stream, result); 
end T64_ACN_Encode; 

procedure T64_ACN_Decode_aux(val:out T64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(bs, val, -9223372036854775808, 9223372036854775807, result);
    result.ErrorCode := ERR_ACN_DECODE_T64;

end T64_ACN_Decode_aux;
PROCEDURE T64_ACN_Decode(val: out T64; Stream : in out T64_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T64_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T64_IsConstraintValid(val);
    end if;

end T64_ACN_Decode; 



function T64L_Equal (val1, val2 :  T64L) return Boolean
is

begin
	return val1 = val2;

end T64L_Equal;

function T64L_IsConstraintValid(val : T64L) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end T64L_IsConstraintValid;



procedure T64L_ACN_Encode_aux(val : T64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T64L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(bs, val);
    end if;
end T64L_ACN_Encode_aux;
procedure T64L_ACN_Encode(val : T64L; Stream : out T64L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T64L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T64L_ACN_Encode_aux directly).
    Stream := T64L_ACN_Stream'(Size_In_Bytes => T64L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T64L_ACN_Encode_aux(val, Stream, result); 
end T64L_ACN_Encode; 

procedure T64L_ACN_Decode_aux(val:out T64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(bs, val, -9223372036854775808, 9223372036854775807, result);
    result.ErrorCode := ERR_ACN_DECODE_T64L;

end T64L_ACN_Decode_aux;
PROCEDURE T64L_ACN_Decode(val: out T64L; Stream : in out T64L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T64L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T64L_IsConstraintValid(val);
    end if;

end T64L_ACN_Decode; 



function T41_Equal (val1, val2 :  T41) return Boolean
is

begin
	return val1 = val2;

end T41_Equal;

function T41_IsConstraintValid(val : T41) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-1099511627776 <= val) AND (val <= 1099511627775));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T41);
    return ret;
end T41_IsConstraintValid;



procedure T41_ACN_Encode_aux(val : T41; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T41_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, val, 41);
    end if;
end T41_ACN_Encode_aux;
procedure T41_ACN_Encode(val : T41; Stream : out T41_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T41_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T41_ACN_Encode_aux directly).
    Stream := T41_ACN_Stream'(Size_In_Bytes => T41_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T41_ACN_Encode_aux(val, Stream, result); 
end T41_ACN_Encode; 

procedure T41_ACN_Decode_aux(val:out T41; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, val, -1099511627776, 1099511627775, 41, result);
    result.ErrorCode := ERR_ACN_DECODE_T41;

end T41_ACN_Decode_aux;
PROCEDURE T41_ACN_Decode(val: out T41; Stream : in out T41_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T41_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T41_IsConstraintValid(val);
    end if;

end T41_ACN_Decode; 



function T20_Equal (val1, val2 :  T20) return Boolean
is

begin
	return val1 = val2;

end T20_Equal;

function T20_IsConstraintValid(val : T20) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-524288 <= val) AND (val <= 524285));
    ret.ErrorCode := (if ret.Success then 0 else ERR_T20);
    return ret;
end T20_IsConstraintValid;



procedure T20_ACN_Encode_aux(val : T20; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := T20_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, val, 20);
    end if;
end T20_ACN_Encode_aux;
procedure T20_ACN_Encode(val : T20; Stream : out T20_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to T20_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke T20_ACN_Encode_aux directly).
    Stream := T20_ACN_Stream'(Size_In_Bytes => T20_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    T20_ACN_Encode_aux(val, Stream, result); 
end T20_ACN_Encode; 

procedure T20_ACN_Decode_aux(val:out T20; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, val, -524288, 524285, 20, result);
    result.ErrorCode := ERR_ACN_DECODE_T20;

end T20_ACN_Decode_aux;
PROCEDURE T20_ACN_Decode(val: out T20; Stream : in out T20_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    T20_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := T20_IsConstraintValid(val);
    end if;

end T20_ACN_Decode; 



function Bcd5_Equal (val1, val2 :  Bcd5) return Boolean
is

begin
	return val1 = val2;

end Bcd5_Equal;

function Bcd5_IsConstraintValid(val : Bcd5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 99999);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BCD5);
    return ret;
end Bcd5_IsConstraintValid;



procedure Bcd5_ACN_Encode_aux(val : Bcd5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Bcd5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_BCD_ConstSize(bs, val, 5);
    end if;
end Bcd5_ACN_Encode_aux;
procedure Bcd5_ACN_Encode(val : Bcd5; Stream : out Bcd5_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Bcd5_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Bcd5_ACN_Encode_aux directly).
    Stream := Bcd5_ACN_Stream'(Size_In_Bytes => Bcd5_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Bcd5_ACN_Encode_aux(val, Stream, result); 
end Bcd5_ACN_Encode; 

procedure Bcd5_ACN_Decode_aux(val:out Bcd5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_BCD_ConstSize(bs, val, 0, 99999, 5, result);
    result.ErrorCode := ERR_ACN_DECODE_BCD5;

end Bcd5_ACN_Decode_aux;
PROCEDURE Bcd5_ACN_Decode(val: out Bcd5; Stream : in out Bcd5_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Bcd5_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Bcd5_IsConstraintValid(val);
    end if;

end Bcd5_ACN_Decode; 



function BcdN_Equal (val1, val2 :  BcdN) return Boolean
is

begin
	return val1 = val2;

end BcdN_Equal;

function BcdN_IsConstraintValid(val : BcdN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 999999999999);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BCDN);
    return ret;
end BcdN_IsConstraintValid;



procedure BcdN_ACN_Encode_aux(val : BcdN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BcdN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_BCD_VarSize_NullTerminated(bs, val);
    end if;
end BcdN_ACN_Encode_aux;
procedure BcdN_ACN_Encode(val : BcdN; Stream : out BcdN_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BcdN_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BcdN_ACN_Encode_aux directly).
    Stream := BcdN_ACN_Stream'(Size_In_Bytes => BcdN_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BcdN_ACN_Encode_aux(val, Stream, result); 
end BcdN_ACN_Encode; 

procedure BcdN_ACN_Decode_aux(val:out BcdN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_BCD_VarSize_NullTerminated(bs, val, 0, 999999999999, result);
    result.ErrorCode := ERR_ACN_DECODE_BCDN;

end BcdN_ACN_Decode_aux;
PROCEDURE BcdN_ACN_Decode(val: out BcdN; Stream : in out BcdN_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BcdN_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BcdN_IsConstraintValid(val);
    end if;

end BcdN_ACN_Decode; 



function As6_Equal (val1, val2 :  As6) return Boolean
is

begin
	return val1 = val2;

end As6_Equal;

function As6_IsConstraintValid(val : As6) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 99999);
    ret.ErrorCode := (if ret.Success then 0 else ERR_AS6);
    return ret;
end As6_IsConstraintValid;



procedure As6_ACN_Encode_aux(val : As6; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := As6_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_UInt_ASCII_ConstSize(bs, val, 6);
    end if;
end As6_ACN_Encode_aux;
procedure As6_ACN_Encode(val : As6; Stream : out As6_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to As6_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke As6_ACN_Encode_aux directly).
    Stream := As6_ACN_Stream'(Size_In_Bytes => As6_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    As6_ACN_Encode_aux(val, Stream, result); 
end As6_ACN_Encode; 

procedure As6_ACN_Decode_aux(val:out As6; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_ConstSize(bs, val, 0, 99999, 6, result);
    result.ErrorCode := ERR_ACN_DECODE_AS6;

end As6_ACN_Decode_aux;
PROCEDURE As6_ACN_Decode(val: out As6; Stream : in out As6_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    As6_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := As6_IsConstraintValid(val);
    end if;

end As6_ACN_Decode; 



function AsS_Equal (val1, val2 :  AsS) return Boolean
is

begin
	return val1 = val2;

end AsS_Equal;

function AsS_IsConstraintValid(val : AsS) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-9999 <= val) AND (val <= 9999));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ASS);
    return ret;
end AsS_IsConstraintValid;



procedure AsS_ACN_Encode_aux(val : AsS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AsS_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_ASCII_ConstSize(bs, val, 5);
    end if;
end AsS_ACN_Encode_aux;
procedure AsS_ACN_Encode(val : AsS; Stream : out AsS_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AsS_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AsS_ACN_Encode_aux directly).
    Stream := AsS_ACN_Stream'(Size_In_Bytes => AsS_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AsS_ACN_Encode_aux(val, Stream, result); 
end AsS_ACN_Encode; 

procedure AsS_ACN_Decode_aux(val:out AsS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_ConstSize(bs, val, -9999, 9999, 5, result);
    result.ErrorCode := ERR_ACN_DECODE_ASS;

end AsS_ACN_Decode_aux;
PROCEDURE AsS_ACN_Decode(val: out AsS; Stream : in out AsS_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AsS_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AsS_IsConstraintValid(val);
    end if;

end AsS_ACN_Decode; 



function AsN_Equal (val1, val2 :  AsN) return Boolean
is

begin
	return val1 = val2;

end AsN_Equal;

function AsN_IsConstraintValid(val : AsN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 1099511627776);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ASN);
    return ret;
end AsN_IsConstraintValid;



procedure AsN_ACN_Encode_aux(val : AsN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AsN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_UInt_ASCII_VarSize_NullTerminated(bs, val, adaasn1rtl.OctetBuffer'(1=>0));
    end if;
end AsN_ACN_Encode_aux;
procedure AsN_ACN_Encode(val : AsN; Stream : out AsN_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AsN_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AsN_ACN_Encode_aux directly).
    Stream := AsN_ACN_Stream'(Size_In_Bytes => AsN_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AsN_ACN_Encode_aux(val, Stream, result); 
end AsN_ACN_Encode; 

procedure AsN_ACN_Decode_aux(val:out AsN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated(bs, val, 0, 1099511627776, adaasn1rtl.OctetBuffer'(1=>0), result);
    result.ErrorCode := ERR_ACN_DECODE_ASN;

end AsN_ACN_Decode_aux;
PROCEDURE AsN_ACN_Decode(val: out AsN; Stream : in out AsN_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AsN_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AsN_IsConstraintValid(val);
    end if;

end AsN_ACN_Decode; 



function AsNS_Equal (val1, val2 :  AsNS) return Boolean
is

begin
	return val1 = val2;

end AsNS_Equal;

function AsNS_IsConstraintValid(val : AsNS) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-1099511627776 <= val) AND (val <= 1099511627776));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ASNS);
    return ret;
end AsNS_IsConstraintValid;



procedure AsNS_ACN_Encode_aux(val : AsNS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AsNS_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_ASCII_VarSize_NullTerminated(bs, val, adaasn1rtl.OctetBuffer'(1=>13, 2=>10));
    end if;
end AsNS_ACN_Encode_aux;
procedure AsNS_ACN_Encode(val : AsNS; Stream : out AsNS_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AsNS_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AsNS_ACN_Encode_aux directly).
    Stream := AsNS_ACN_Stream'(Size_In_Bytes => AsNS_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AsNS_ACN_Encode_aux(val, Stream, result); 
end AsNS_ACN_Encode; 

procedure AsNS_ACN_Decode_aux(val:out AsNS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated(bs, val, -1099511627776, 1099511627776, adaasn1rtl.OctetBuffer'(1=>13, 2=>10), result);
    result.ErrorCode := ERR_ACN_DECODE_ASNS;

end AsNS_ACN_Decode_aux;
PROCEDURE AsNS_ACN_Decode(val: out AsNS; Stream : in out AsNS_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AsNS_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AsNS_IsConstraintValid(val);
    end if;

end AsNS_ACN_Decode; 



function AU_Equal (val1, val2 :  AU) return Boolean
is

begin
	return val1 = val2;

end AU_Equal;

function AU_IsConstraintValid(val : AU) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((3 <= val) AND (val <= 74));
    ret.ErrorCode := (if ret.Success then 0 else ERR_AU);
    return ret;
end AU_IsConstraintValid;



procedure AU_ACN_Encode_aux(val : AU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AU_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 3, 7);
    end if;
end AU_ACN_Encode_aux;
procedure AU_ACN_Encode(val : AU; Stream : out AU_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AU_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AU_ACN_Encode_aux directly).
    Stream := AU_ACN_Stream'(Size_In_Bytes => AU_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AU_ACN_Encode_aux(val, Stream, result); 
end AU_ACN_Encode; 

procedure AU_ACN_Decode_aux(val:out AU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_AU;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 3, 74, 7, result.Success);
end AU_ACN_Decode_aux;
PROCEDURE AU_ACN_Decode(val: out AU; Stream : in out AU_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AU_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AU_IsConstraintValid(val);
    end if;

end AU_ACN_Decode; 



function AB_Equal (val1, val2 :  AB) return Boolean
is

begin
	return val1 = val2;

end AB_Equal;

function AB_IsConstraintValid(val : AB) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end AB_IsConstraintValid;



procedure AB_ACN_Encode_aux(val : AB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_UnConstraintWholeNumber(bs, val);
    end if;
end AB_ACN_Encode_aux;
procedure AB_ACN_Encode(val : AB; Stream : out AB_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AB_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AB_ACN_Encode_aux directly).
    Stream := AB_ACN_Stream'(Size_In_Bytes => AB_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AB_ACN_Encode_aux(val, Stream, result); 
end AB_ACN_Encode; 

procedure AB_ACN_Decode_aux(val:out AB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_AB;
    adaasn1rtl.encoding.uper.UPER_Dec_UnConstraintWholeNumber(bs, val, result.Success);
end AB_ACN_Decode_aux;
PROCEDURE AB_ACN_Decode(val: out AB; Stream : in out AB_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AB_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AB_IsConstraintValid(val);
    end if;

end AB_ACN_Decode; 



function Ints_Equal (val1, val2 :  Ints) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.i_a = val2.i_a);

    if ret then
        ret := (val1.i_b = val2.i_b);

        if ret then
            ret := (val1.i_c = val2.i_c);

            if ret then
                ret := (val1.i_d = val2.i_d);

                if ret then
                    ret := (val1.i_e = val2.i_e);

                    if ret then
                        ret := (val1.i_f = val2.i_f);

                        if ret then
                            ret := (val1.i_g = val2.i_g);

                            if ret then
                                ret := (val1.i_h = val2.i_h);

                                if ret then
                                    ret := (val1.i_i = val2.i_i);

                                    if ret then
                                        ret := (val1.i_j = val2.i_j);

                                        if ret then
                                            ret := (val1.i_k = val2.i_k);

                                            if ret then
                                                ret := (val1.i_l = val2.i_l);

                                                if ret then
                                                    ret := (val1.i_m = val2.i_m);

                                                    if ret then
                                                        ret := (val1.i_n = val2.i_n);

                                                        if ret then
                                                            ret := (val1.i_o = val2.i_o);

                                                            if ret then
                                                                ret := (val1.i_p = val2.i_p);

                                                                if ret then
                                                                    ret := (val1.i_q = val2.i_q);

                                                                    if ret then
                                                                        ret := (val1.i_r = val2.i_r);

                                                                        if ret then
                                                                            ret := (val1.i_s = val2.i_s);

                                                                            if ret then
                                                                                ret := (val1.i_t = val2.i_t);

                                                                                if ret then
                                                                                    ret := (val1.i_u = val2.i_u);

                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Ints_Equal;

function Ints_IsConstraintValid(val : Ints) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := P5_IsConstraintValid(val.i_a);
    if ret.Success then
        ret := P16L_IsConstraintValid(val.i_b);
        if ret.Success then
            ret := T16_IsConstraintValid(val.i_c);
            if ret.Success then
                ret := T32L_IsConstraintValid(val.i_d);
                if ret.Success then
                    ret := P64_IsConstraintValid(val.i_e);
                    if ret.Success then
                        ret := T64L_IsConstraintValid(val.i_f);
                        if ret.Success then
                            ret := Bcd5_IsConstraintValid(val.i_g);
                            if ret.Success then
                                ret := BcdN_IsConstraintValid(val.i_h);
                                if ret.Success then
                                    ret := As6_IsConstraintValid(val.i_i);
                                    if ret.Success then
                                        ret := AsS_IsConstraintValid(val.i_j);
                                        if ret.Success then
                                            ret := AsN_IsConstraintValid(val.i_k);
                                            if ret.Success then
                                                ret := AsNS_IsConstraintValid(val.i_l);
                                                if ret.Success then
                                                    ret := P37_IsConstraintValid(val.i_m);
                                                    if ret.Success then
                                                        ret := T41_IsConstraintValid(val.i_n);
                                                        if ret.Success then
                                                            ret := AB_IsConstraintValid(val.i_o);
                                                            if ret.Success then
                                                                ret := P32_IsConstraintValid(val.i_p);
                                                                if ret.Success then
                                                                    ret := T8_IsConstraintValid(val.i_q);
                                                                    if ret.Success then
                                                                        ret := P64L_IsConstraintValid(val.i_r);
                                                                        if ret.Success then
                                                                            ret := T64_IsConstraintValid(val.i_s);
                                                                            if ret.Success then
                                                                                ret := P32L_IsConstraintValid(val.i_t);
                                                                                if ret.Success then
                                                                                    ret := T20_IsConstraintValid(val.i_u);
                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Ints_IsConstraintValid;



procedure Ints_ACN_Encode_aux(val : Ints; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Ints_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode i_a
        P5_ACN_Encode_aux(val.i_a, bs, result);
        if result.Success then
            -- Encode i_b
            P16L_ACN_Encode_aux(val.i_b, bs, result);
            if result.Success then
                -- Encode i_c
                T16_ACN_Encode_aux(val.i_c, bs, result);
                if result.Success then
                    -- Encode i_d
                    T32L_ACN_Encode_aux(val.i_d, bs, result);
                    if result.Success then
                        -- Encode i_e
                        P64_ACN_Encode_aux(val.i_e, bs, result);
                        if result.Success then
                            -- Encode i_f
                            T64L_ACN_Encode_aux(val.i_f, bs, result);
                            if result.Success then
                                -- Encode i_g
                                Bcd5_ACN_Encode_aux(val.i_g, bs, result);
                                if result.Success then
                                    -- Encode i_h
                                    BcdN_ACN_Encode_aux(val.i_h, bs, result);
                                    if result.Success then
                                        -- Encode i_i
                                        As6_ACN_Encode_aux(val.i_i, bs, result);
                                        if result.Success then
                                            -- Encode i_j
                                            AsS_ACN_Encode_aux(val.i_j, bs, result);
                                            if result.Success then
                                                -- Encode i_k
                                                AsN_ACN_Encode_aux(val.i_k, bs, result);
                                                if result.Success then
                                                    -- Encode i_l
                                                    AsNS_ACN_Encode_aux(val.i_l, bs, result);
                                                    if result.Success then
                                                        -- Encode i_m
                                                        P37_ACN_Encode_aux(val.i_m, bs, result);
                                                        if result.Success then
                                                            -- Encode i_n
                                                            T41_ACN_Encode_aux(val.i_n, bs, result);
                                                            if result.Success then
                                                                -- Encode i_o
                                                                AB_ACN_Encode_aux(val.i_o, bs, result);
                                                                if result.Success then
                                                                    -- Encode i_p
                                                                    P32_ACN_Encode_aux(val.i_p, bs, result);
                                                                    if result.Success then
                                                                        -- Encode i_q
                                                                        T8_ACN_Encode_aux(val.i_q, bs, result);
                                                                        if result.Success then
                                                                            -- Encode i_r
                                                                            P64L_ACN_Encode_aux(val.i_r, bs, result);
                                                                            if result.Success then
                                                                                -- Encode i_s
                                                                                T64_ACN_Encode_aux(val.i_s, bs, result);
                                                                                if result.Success then
                                                                                    -- Encode i_t
                                                                                    P32L_ACN_Encode_aux(val.i_t, bs, result);
                                                                                    if result.Success then
                                                                                        -- Encode i_u
                                                                                        T20_ACN_Encode_aux(val.i_u, bs, result);
                                                                                    end if;
                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Ints_ACN_Encode_aux;
procedure Ints_ACN_Encode(val : Ints; Stream : out Ints_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Ints_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Ints_ACN_Encode_aux directly).
    Stream := Ints_ACN_Stream'(Size_In_Bytes => Ints_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Ints_ACN_Encode_aux(val, Stream, result); 
end Ints_ACN_Encode; 

procedure Ints_ACN_Decode_aux(val:out Ints; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode i_a
    P5_ACN_Decode_aux(val.i_a, bs, result);
    if result.Success then
        -- Decode i_b
        P16L_ACN_Decode_aux(val.i_b, bs, result);
        if result.Success then
            -- Decode i_c
            T16_ACN_Decode_aux(val.i_c, bs, result);
            if result.Success then
                -- Decode i_d
                T32L_ACN_Decode_aux(val.i_d, bs, result);
                if result.Success then
                    -- Decode i_e
                    P64_ACN_Decode_aux(val.i_e, bs, result);
                    if result.Success then
                        -- Decode i_f
                        T64L_ACN_Decode_aux(val.i_f, bs, result);
                        if result.Success then
                            -- Decode i_g
                            Bcd5_ACN_Decode_aux(val.i_g, bs, result);
                            if result.Success then
                                -- Decode i_h
                                BcdN_ACN_Decode_aux(val.i_h, bs, result);
                                if result.Success then
                                    -- Decode i_i
                                    As6_ACN_Decode_aux(val.i_i, bs, result);
                                    if result.Success then
                                        -- Decode i_j
                                        AsS_ACN_Decode_aux(val.i_j, bs, result);
                                        if result.Success then
                                            -- Decode i_k
                                            AsN_ACN_Decode_aux(val.i_k, bs, result);
                                            if result.Success then
                                                -- Decode i_l
                                                AsNS_ACN_Decode_aux(val.i_l, bs, result);
                                                if result.Success then
                                                    -- Decode i_m
                                                    P37_ACN_Decode_aux(val.i_m, bs, result);
                                                    if result.Success then
                                                        -- Decode i_n
                                                        T41_ACN_Decode_aux(val.i_n, bs, result);
                                                        if result.Success then
                                                            -- Decode i_o
                                                            AB_ACN_Decode_aux(val.i_o, bs, result);
                                                            if result.Success then
                                                                -- Decode i_p
                                                                P32_ACN_Decode_aux(val.i_p, bs, result);
                                                                if result.Success then
                                                                    -- Decode i_q
                                                                    T8_ACN_Decode_aux(val.i_q, bs, result);
                                                                    if result.Success then
                                                                        -- Decode i_r
                                                                        P64L_ACN_Decode_aux(val.i_r, bs, result);
                                                                        if result.Success then
                                                                            -- Decode i_s
                                                                            T64_ACN_Decode_aux(val.i_s, bs, result);
                                                                            if result.Success then
                                                                                -- Decode i_t
                                                                                P32L_ACN_Decode_aux(val.i_t, bs, result);
                                                                                if result.Success then
                                                                                    -- Decode i_u
                                                                                    T20_ACN_Decode_aux(val.i_u, bs, result);
                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Ints_ACN_Decode_aux;
PROCEDURE Ints_ACN_Decode(val: out Ints; Stream : in out Ints_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Ints_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Ints_IsConstraintValid(val);
    end if;

end Ints_ACN_Decode; 



function R32_Equal (val1, val2 :  R32) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end R32_Equal;

function R32_IsConstraintValid(val : R32) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end R32_IsConstraintValid;



procedure R32_ACN_Encode_aux(val : R32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := R32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Real_IEEE754_32_big_endian(bs, val);
    end if;
end R32_ACN_Encode_aux;
procedure R32_ACN_Encode(val : R32; Stream : out R32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to R32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke R32_ACN_Encode_aux directly).
    Stream := R32_ACN_Stream'(Size_In_Bytes => R32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    R32_ACN_Encode_aux(val, Stream, result); 
end R32_ACN_Encode; 

procedure R32_ACN_Decode_aux(val:out R32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Real_IEEE754_32_big_endian(bs, val, result);
    result.ErrorCode := ERR_ACN_DECODE_R32;
end R32_ACN_Decode_aux;
PROCEDURE R32_ACN_Decode(val: out R32; Stream : in out R32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    R32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := R32_IsConstraintValid(val);
    end if;

end R32_ACN_Decode; 



function R64_Equal (val1, val2 :  R64) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end R64_Equal;

function R64_IsConstraintValid(val : R64) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end R64_IsConstraintValid;



procedure R64_ACN_Encode_aux(val : R64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := R64_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Real_IEEE754_64_big_endian(bs, val);
    end if;
end R64_ACN_Encode_aux;
procedure R64_ACN_Encode(val : R64; Stream : out R64_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to R64_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke R64_ACN_Encode_aux directly).
    Stream := R64_ACN_Stream'(Size_In_Bytes => R64_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    R64_ACN_Encode_aux(val, Stream, result); 
end R64_ACN_Encode; 

procedure R64_ACN_Decode_aux(val:out R64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Real_IEEE754_64_big_endian(bs, val, result);
    result.ErrorCode := ERR_ACN_DECODE_R64;
end R64_ACN_Decode_aux;
PROCEDURE R64_ACN_Decode(val: out R64; Stream : in out R64_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    R64_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := R64_IsConstraintValid(val);
    end if;

end R64_ACN_Decode; 



function R64L_Equal (val1, val2 :  R64L) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end R64L_Equal;

function R64L_IsConstraintValid(val : R64L) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end R64L_IsConstraintValid;



procedure R64L_ACN_Encode_aux(val : R64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := R64L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Real_IEEE754_64_little_endian(bs, val);
    end if;
end R64L_ACN_Encode_aux;
procedure R64L_ACN_Encode(val : R64L; Stream : out R64L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to R64L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke R64L_ACN_Encode_aux directly).
    Stream := R64L_ACN_Stream'(Size_In_Bytes => R64L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    R64L_ACN_Encode_aux(val, Stream, result); 
end R64L_ACN_Encode; 

procedure R64L_ACN_Decode_aux(val:out R64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Real_IEEE754_64_little_endian(bs, val, result);
    result.ErrorCode := ERR_ACN_DECODE_R64L;
end R64L_ACN_Decode_aux;
PROCEDURE R64L_ACN_Decode(val: out R64L; Stream : in out R64L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    R64L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := R64L_IsConstraintValid(val);
    end if;

end R64L_ACN_Decode; 



function R32L_Equal (val1, val2 :  R32L) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end R32L_Equal;

function R32L_IsConstraintValid(val : R32L) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end R32L_IsConstraintValid;



procedure R32L_ACN_Encode_aux(val : R32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := R32L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Real_IEEE754_32_little_endian(bs, val);
    end if;
end R32L_ACN_Encode_aux;
procedure R32L_ACN_Encode(val : R32L; Stream : out R32L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to R32L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke R32L_ACN_Encode_aux directly).
    Stream := R32L_ACN_Stream'(Size_In_Bytes => R32L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    R32L_ACN_Encode_aux(val, Stream, result); 
end R32L_ACN_Encode; 

procedure R32L_ACN_Decode_aux(val:out R32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Real_IEEE754_32_little_endian(bs, val, result);
    result.ErrorCode := ERR_ACN_DECODE_R32L;
end R32L_ACN_Decode_aux;
PROCEDURE R32L_ACN_Decode(val: out R32L; Stream : in out R32L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    R32L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := R32L_IsConstraintValid(val);
    end if;

end R32L_ACN_Decode; 



function RU_Equal (val1, val2 :  RU) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end RU_Equal;

function RU_IsConstraintValid(val : RU) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end RU_IsConstraintValid;



procedure RU_ACN_Encode_aux(val : RU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := RU_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_Real(bs, val);
    end if;
end RU_ACN_Encode_aux;
procedure RU_ACN_Encode(val : RU; Stream : out RU_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to RU_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke RU_ACN_Encode_aux directly).
    Stream := RU_ACN_Stream'(Size_In_Bytes => RU_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    RU_ACN_Encode_aux(val, Stream, result); 
end RU_ACN_Encode; 

procedure RU_ACN_Decode_aux(val:out RU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.uper.UPER_Dec_Real(bs, val, result);
end RU_ACN_Decode_aux;
PROCEDURE RU_ACN_Decode(val: out RU; Stream : in out RU_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    RU_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := RU_IsConstraintValid(val);
    end if;

end RU_ACN_Decode; 



function B1_Equal (val1, val2 :  B1) return Boolean
is

begin
	return val1 = val2;

end B1_Equal;

function B1_IsConstraintValid(val : B1) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end B1_IsConstraintValid;



procedure B1_ACN_Encode_aux(val : B1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := B1_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val);
    end if;
end B1_ACN_Encode_aux;
procedure B1_ACN_Encode(val : B1; Stream : out B1_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to B1_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke B1_ACN_Encode_aux directly).
    Stream := B1_ACN_Stream'(Size_In_Bytes => B1_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    B1_ACN_Encode_aux(val, Stream, result); 
end B1_ACN_Encode; 

procedure B1_ACN_Decode_aux(val:out B1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_B1;
    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val, result.Success);
end B1_ACN_Decode_aux;
PROCEDURE B1_ACN_Decode(val: out B1; Stream : in out B1_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    B1_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := B1_IsConstraintValid(val);
    end if;

end B1_ACN_Decode; 



function BT_Equal (val1, val2 :  BT) return Boolean
is

begin
	return val1 = val2;

end BT_Equal;

function BT_IsConstraintValid(val : BT) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end BT_IsConstraintValid;



procedure BT_ACN_Encode_aux(val : BT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BT_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Boolean_true_pattern(bs, val, BitArray'(1=>1,2=>0,3=>1,4=>1));

    end if;
end BT_ACN_Encode_aux;
procedure BT_ACN_Encode(val : BT; Stream : out BT_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BT_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BT_ACN_Encode_aux directly).
    Stream := BT_ACN_Stream'(Size_In_Bytes => BT_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BT_ACN_Encode_aux(val, Stream, result); 
end BT_ACN_Encode; 

procedure BT_ACN_Decode_aux(val:out BT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Boolean_true_pattern(bs, val, BitArray'(1=>1,2=>0,3=>1,4=>1), result);
    result.ErrorCode := ERR_ACN_DECODE_BT;
end BT_ACN_Decode_aux;
PROCEDURE BT_ACN_Decode(val: out BT; Stream : in out BT_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BT_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BT_IsConstraintValid(val);
    end if;

end BT_ACN_Decode; 



function CnQ_Equal (val1, val2 :  CnQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.a = val2.a);

    if ret then
        ret := (val1.b = val2.b);

        if ret then
            ret := val1.Exist.c = val2.Exist.c;
            if ret and then val1.Exist.c = 1 then
                ret := (val1.c = val2.c);
            end if;

        end if;
    end if;
	return ret;

end CnQ_Equal;

function CnQ_IsConstraintValid(val : CnQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := P5_IsConstraintValid(val.a);
    if ret.Success then
        ret := BT_IsConstraintValid(val.b);
        if ret.Success then
            if val.Exist.c = 1 then
                ret := P32_IsConstraintValid(val.c);
            end if;
        end if;
    end if;
    return ret;
end CnQ_IsConstraintValid;



procedure CnQ_ACN_Encode_aux(val : CnQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.c);
        if result.Success then
            -- Encode a
            P5_ACN_Encode_aux(val.a, bs, result);
            if result.Success then
                -- Encode b
                BT_ACN_Encode_aux(val.b, bs, result);
                if result.Success then
                    -- Encode c
                    if val.Exist.c = 1 then
                    	P32_ACN_Encode_aux(val.c, bs, result);
                    end if;
                end if;
            end if;
        end if;
    end if;
end CnQ_ACN_Encode_aux;
procedure CnQ_ACN_Encode(val : CnQ; Stream : out CnQ_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnQ_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnQ_ACN_Encode_aux directly).
    Stream := CnQ_ACN_Stream'(Size_In_Bytes => CnQ_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnQ_ACN_Encode_aux(val, Stream, result); 
end CnQ_ACN_Encode; 

procedure CnQ_ACN_Decode_aux(val:out CnQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    c_exist:adaasn1rtl.BIT;
begin
    result.ErrorCode := ERR_ACN_DECODE_CNQ;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, c_exist, result.Success);
    val.Exist.c := c_exist;
    if result.Success then
        -- Decode a
        P5_ACN_Decode_aux(val.a, bs, result);
        if result.Success then
            -- Decode b
            BT_ACN_Decode_aux(val.b, bs, result);
            if result.Success then
                -- Decode c
                if val.Exist.c = 1 then
                	P32_ACN_Decode_aux(val.c, bs, result);
                end if;
            end if;
        end if;
    end if;
end CnQ_ACN_Decode_aux;
PROCEDURE CnQ_ACN_Decode(val: out CnQ; Stream : in out CnQ_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnQ_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnQ_IsConstraintValid(val);
    end if;

end CnQ_ACN_Decode; 



function CnO_p_Equal (val1, val2 :  CnO_p) return Boolean
is

begin
	return val1 = val2;

end CnO_p_Equal;

function CnO_t_Equal (val1, val2 :  CnO_t) return Boolean
is

begin
	return val1 = val2;

end CnO_t_Equal;

function CnO_Equal (val1, val2 :  CnO) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnO_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnQ_Equal(val1.c, val2.c);

        if ret then
            ret := CnO_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end CnO_Equal;

function CnO_p_IsConstraintValid(val : CnO_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNO_P);
    return ret;
end CnO_p_IsConstraintValid;

function CnO_t_IsConstraintValid(val : CnO_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNO_T);
    return ret;
end CnO_t_IsConstraintValid;

function CnO_IsConstraintValid(val : CnO) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnO_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnQ_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnO_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end CnO_IsConstraintValid;





procedure CnO_ACN_Encode_aux(val : CnO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnO_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            -- Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnQ_ACN_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, Asn1Int (data_length), Asn1Int (2), 3);
                    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length (bs, tmpBs.Buffer, data_length);

            	end if;
            end;
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end CnO_ACN_Encode_aux;
procedure CnO_ACN_Encode(val : CnO; Stream : out CnO_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnO_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnO_ACN_Encode_aux directly).
    Stream := CnO_ACN_Stream'(Size_In_Bytes => CnO_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnO_ACN_Encode_aux(val, Stream, result); 
end CnO_ACN_Encode; 

procedure CnO_ACN_Decode_aux(val:out CnO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode p
    result.ErrorCode := ERR_ACN_DECODE_CNO_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
        	data_length : Integer;

        begin
        	--decode to a temporary bitstream
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, data_length, 2, 6, 3, result.success);
            if result.success then
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length (bs, tmpBs.Buffer, data_length, result.success);
        	    if result.success then
        		    CnQ_ACN_Decode_aux(val.c, tmpBs, result);
        	    end if;
            end if;

        end;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_CNO_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end CnO_ACN_Decode_aux;
PROCEDURE CnO_ACN_Decode(val: out CnO; Stream : in out CnO_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnO_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnO_IsConstraintValid(val);
    end if;

end CnO_ACN_Decode; 



function CnB_p_Equal (val1, val2 :  CnB_p) return Boolean
is

begin
	return val1 = val2;

end CnB_p_Equal;

function CnB_t_Equal (val1, val2 :  CnB_t) return Boolean
is

begin
	return val1 = val2;

end CnB_t_Equal;

function CnB_Equal (val1, val2 :  CnB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnB_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnQ_Equal(val1.c, val2.c);

        if ret then
            ret := CnB_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end CnB_Equal;

function CnB_p_IsConstraintValid(val : CnB_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNB_P);
    return ret;
end CnB_p_IsConstraintValid;

function CnB_t_IsConstraintValid(val : CnB_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNB_T);
    return ret;
end CnB_t_IsConstraintValid;

function CnB_IsConstraintValid(val : CnB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnB_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnQ_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnB_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end CnB_IsConstraintValid;





procedure CnB_ACN_Encode_aux(val : CnB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            -- Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnQ_ACN_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := tmpBs.Current_Bit_Pos;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, Asn1Int (data_length), Asn1Int (10), 6);
                    adaasn1rtl.encoding.BitStream_AppendBits (bs, tmpBs.Buffer, data_length);

            	end if;
            end;
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end CnB_ACN_Encode_aux;
procedure CnB_ACN_Encode(val : CnB; Stream : out CnB_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnB_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnB_ACN_Encode_aux directly).
    Stream := CnB_ACN_Stream'(Size_In_Bytes => CnB_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnB_ACN_Encode_aux(val, Stream, result); 
end CnB_ACN_Encode; 

procedure CnB_ACN_Decode_aux(val:out CnB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode p
    result.ErrorCode := ERR_ACN_DECODE_CNB_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
        	data_length : Integer;

        begin
        	--decode to a temporary bitstream
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, data_length, 10, 42, 6, result.success);
            if result.success then
                adaasn1rtl.encoding.BitStream_ReadBits (bs, tmpBs.Buffer, data_length, result.success);
        	    if result.success then
        		    CnQ_ACN_Decode_aux(val.c, tmpBs, result);
        	    end if;
            end if;

        end;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_CNB_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end CnB_ACN_Decode_aux;
PROCEDURE CnB_ACN_Decode(val: out CnB; Stream : in out CnB_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnB_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnB_IsConstraintValid(val);
    end if;

end CnB_ACN_Decode; 



function CnN_p_Equal (val1, val2 :  CnN_p) return Boolean
is

begin
	return val1 = val2;

end CnN_p_Equal;

function CnN_d_Equal (val1, val2 :  CnN_d) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := CnB_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end CnN_d_Equal;

function CnN_Equal (val1, val2 :  CnN) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnN_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnO_Equal(val1.c, val2.c);

        if ret then
            ret := CnN_d_Equal(val1.d, val2.d);

        end if;
    end if;
	return ret;

end CnN_Equal;

function CnN_p_IsConstraintValid(val : CnN_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNN_P);
    return ret;
end CnN_p_IsConstraintValid;

function CnN_d_IsConstraintValid(val : CnN_d) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNN_D);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := CnB_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end CnN_d_IsConstraintValid;

function CnN_IsConstraintValid(val : CnN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnN_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnO_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnN_d_IsConstraintValid(val.d);
        end if;
    end if;
    return ret;
end CnN_IsConstraintValid;





procedure CnN_ACN_Encode_aux(val : CnN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := CnN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            -- Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnO_REQUIRED_BYTES_FOR_ACN_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnO_ACN_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, Asn1Int (data_length), Asn1Int (4), 3);
                    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length (bs, tmpBs.Buffer, data_length);

            	end if;
            end;
            if result.Success then
                -- Encode d
                result.Success := val.d.Length >= 0 AND val.d.Length <= 3;
                result.errorCode := ERR_ACN_ENCODE_CNN_D;
                if result.Success then
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.d.Length), 0, 2);
                    i1 := 1;
                    while i1<= val.d.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.d.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 56*(i1-1));
                        CnB_ACN_Encode_aux(val.d.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
            end if;
        end if;
    end if;
end CnN_ACN_Encode_aux;
procedure CnN_ACN_Encode(val : CnN; Stream : out CnN_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CnN_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CnN_ACN_Encode_aux directly).
    Stream := CnN_ACN_Stream'(Size_In_Bytes => CnN_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CnN_ACN_Encode_aux(val, Stream, result); 
end CnN_ACN_Encode; 

procedure CnN_ACN_Decode_aux(val:out CnN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    nStringLength:Integer;
begin
    -- Decode p
    result.ErrorCode := ERR_ACN_DECODE_CNN_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnO_REQUIRED_BYTES_FOR_ACN_ENCODING);
        	data_length : Integer;

        begin
        	--decode to a temporary bitstream
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, data_length, 4, 8, 3, result.success);
            if result.success then
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length (bs, tmpBs.Buffer, data_length, result.success);
        	    if result.success then
        		    CnO_ACN_Decode_aux(val.c, tmpBs, result);
        	    end if;
            end if;

        end;
        if result.Success then
            -- Decode d
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 3, 2, result.Success);
            result.errorCode := ERR_ACN_DECODE_CNN_D;
            val.d.Length := nStringLength;
            i1 := 1;
            while i1<= val.d.Length AND result.Success loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.d.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 56*(i1-1));
                CnB_ACN_Decode_aux(val.d.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end CnN_ACN_Decode_aux;
PROCEDURE CnN_ACN_Decode(val: out CnN; Stream : in out CnN_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CnN_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CnN_IsConstraintValid(val);
    end if;

end CnN_ACN_Decode; 



function BF_Equal (val1, val2 :  BF) return Boolean
is

begin
	return val1 = val2;

end BF_Equal;

function BF_IsConstraintValid(val : BF) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end BF_IsConstraintValid;



procedure BF_ACN_Encode_aux(val : BF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Boolean_false_pattern(bs, val, BitArray'(1=>0,2=>1,3=>0,4=>1,5=>0,6=>1,7=>0,8=>1,9=>0));

    end if;
end BF_ACN_Encode_aux;
procedure BF_ACN_Encode(val : BF; Stream : out BF_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BF_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BF_ACN_Encode_aux directly).
    Stream := BF_ACN_Stream'(Size_In_Bytes => BF_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BF_ACN_Encode_aux(val, Stream, result); 
end BF_ACN_Encode; 

procedure BF_ACN_Decode_aux(val:out BF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Boolean_false_pattern(bs, val, BitArray'(1=>0,2=>1,3=>0,4=>1,5=>0,6=>1,7=>0,8=>1,9=>0), result);
    result.ErrorCode := ERR_ACN_DECODE_BF;
end BF_ACN_Decode_aux;
PROCEDURE BF_ACN_Decode(val: out BF; Stream : in out BF_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BF_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BF_IsConstraintValid(val);
    end if;

end BF_ACN_Decode; 



function BTF_Equal (val1, val2 :  BTF) return Boolean
is

begin
	return val1 = val2;

end BTF_Equal;

function BTF_IsConstraintValid(val : BTF) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end BTF_IsConstraintValid;



procedure BTF_ACN_Encode_aux(val : BTF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BTF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Boolean_true_false_pattern(bs, val, BitArray'(1=>1,2=>1,3=>0,4=>0,5=>1,6=>1,7=>0,8=>0,9=>1,10=>1,11=>1), BitArray'(1=>0,2=>0,3=>0,4=>0,5=>0,6=>0,7=>0,8=>0,9=>0,10=>0,11=>1));
    end if;
end BTF_ACN_Encode_aux;
procedure BTF_ACN_Encode(val : BTF; Stream : out BTF_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BTF_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BTF_ACN_Encode_aux directly).
    Stream := BTF_ACN_Stream'(Size_In_Bytes => BTF_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BTF_ACN_Encode_aux(val, Stream, result); 
end BTF_ACN_Encode; 

procedure BTF_ACN_Decode_aux(val:out BTF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Boolean_true_false_pattern(bs, val, BitArray'(1=>1,2=>1,3=>0,4=>0,5=>1,6=>1,7=>0,8=>0,9=>1,10=>1,11=>1), BitArray'(1=>0,2=>0,3=>0,4=>0,5=>0,6=>0,7=>0,8=>0,9=>0,10=>0,11=>1), result);
    result.ErrorCode := ERR_ACN_DECODE_BTF;
end BTF_ACN_Decode_aux;
PROCEDURE BTF_ACN_Decode(val: out BTF; Stream : in out BTF_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BTF_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BTF_IsConstraintValid(val);
    end if;

end BTF_ACN_Decode; 



function N0_Equal (val1, val2 :  N0) return Boolean
is
   pragma Unreferenced (val1);
   pragma Unreferenced (val2);

begin
	return True;

end N0_Equal;



procedure N0_ACN_Encode_aux(val : N0; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
pragma Unreferenced(bs);
pragma Unreferenced(val);

begin
    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    null;
end N0_ACN_Encode_aux;
procedure N0_ACN_Encode(val : N0; Stream : out N0_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to N0_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke N0_ACN_Encode_aux directly).
    Stream := N0_ACN_Stream'(Size_In_Bytes => N0_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    N0_ACN_Encode_aux(val, Stream, result); 
end N0_ACN_Encode; 

pragma Warnings (Off, "unused initial value of ""val""");

procedure N0_ACN_Decode_aux(val:out N0; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
pragma Unreferenced(bs);

begin
    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
end N0_ACN_Decode_aux;
pragma Warnings (On, "unused initial value of ""val""");

PROCEDURE N0_ACN_Decode(val: out N0; Stream : in out N0_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    N0_ACN_Decode_aux(val, Stream, result); 
end N0_ACN_Decode; 



function NP_Equal (val1, val2 :  NP) return Boolean
is
   pragma Unreferenced (val1);
   pragma Unreferenced (val2);

begin
	return True;

end NP_Equal;



procedure NP_ACN_Encode_aux(val : NP; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    adaasn1rtl.encoding.acn.Acn_Enc_NullType_pattern(bs, val, BitArray'(1=>1,2=>0,3=>1,4=>0,5=>1,6=>1,7=>1,8=>0,9=>0,10=>0,11=>1,12=>0,13=>1));
end NP_ACN_Encode_aux;
procedure NP_ACN_Encode(val : NP; Stream : out NP_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to NP_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke NP_ACN_Encode_aux directly).
    Stream := NP_ACN_Stream'(Size_In_Bytes => NP_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    NP_ACN_Encode_aux(val, Stream, result); 
end NP_ACN_Encode; 

procedure NP_ACN_Decode_aux(val:out NP; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_NullType_pattern(bs, val, BitArray'(1=>1,2=>0,3=>1,4=>0,5=>1,6=>1,7=>1,8=>0,9=>0,10=>0,11=>1,12=>0,13=>1), result);
    result.ErrorCode := ERR_ACN_DECODE_NP;

end NP_ACN_Decode_aux;
PROCEDURE NP_ACN_Decode(val: out NP; Stream : in out NP_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    NP_ACN_Decode_aux(val, Stream, result); 
end NP_ACN_Decode; 



function En_Equal (val1, val2 :  En) return Boolean
is

begin
	return val1 = val2;

end En_Equal;

function En_IsConstraintValid(val : En) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = e1)) OR ((val = e2)))) OR ((val = e3)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_EN);
    return ret;
end En_IsConstraintValid;



procedure En_ACN_Encode_aux(val : En; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := En_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when e1    => intVal_val := 0;
            when e2    => intVal_val := 1;
            when e3    => intVal_val := 2;
        end case;
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, intVal_val, 0, 2);
    end if;
end En_ACN_Encode_aux;
procedure En_ACN_Encode(val : En; Stream : out En_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to En_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke En_ACN_Encode_aux directly).
    Stream := En_ACN_Stream'(Size_In_Bytes => En_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    En_ACN_Encode_aux(val, Stream, result); 
end En_ACN_Encode; 

procedure En_ACN_Decode_aux(val:out En; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result.ErrorCode := ERR_ACN_DECODE_EN;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, intVal_val, 0, 2, 2, result.Success);
    if result.Success then
        case intVal_val is
            when 0 => val := e1;
            when 1 => val := e2;
            when 2 => val := e3;
        when others =>																				-- COVERAGE_IGNORE
            val := e1;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_EN);	-- COVERAGE_IGNORE
        end case;
    else
        val := e1;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_EN;																-- COVERAGE_IGNORE
    end if;
end En_ACN_Decode_aux;
PROCEDURE En_ACN_Decode(val: out En; Stream : in out En_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    En_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := En_IsConstraintValid(val);
    end if;

end En_ACN_Decode; 



function EnV_Equal (val1, val2 :  EnV) return Boolean
is

begin
	return val1 = val2;

end EnV_Equal;

function EnV_IsConstraintValid(val : EnV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = v1)) OR ((val = v2)))) OR ((val = v3)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ENV);
    return ret;
end EnV_IsConstraintValid;



procedure EnV_ACN_Encode_aux(val : EnV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := EnV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when v1    => intVal_val := 3;
            when v2    => intVal_val := 77;
            when v3    => intVal_val := 250;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, intVal_val);
    end if;
end EnV_ACN_Encode_aux;
procedure EnV_ACN_Encode(val : EnV; Stream : out EnV_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to EnV_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke EnV_ACN_Encode_aux directly).
    Stream := EnV_ACN_Stream'(Size_In_Bytes => EnV_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    EnV_ACN_Encode_aux(val, Stream, result); 
end EnV_ACN_Encode; 

procedure EnV_ACN_Decode_aux(val:out EnV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, intVal_val, 3, 250, result);
    result.ErrorCode := ERR_ACN_DECODE_ENV;

    if result.Success then
        case intVal_val is
            when 3 => val := v1;
            when 77 => val := v2;
            when 250 => val := v3;
        when others =>																				-- COVERAGE_IGNORE
            val := v1;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_ENV);	-- COVERAGE_IGNORE
        end case;
    else
        val := v1;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_ENV;																-- COVERAGE_IGNORE
    end if;
end EnV_ACN_Decode_aux;
PROCEDURE EnV_ACN_Decode(val: out EnV; Stream : in out EnV_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    EnV_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := EnV_IsConstraintValid(val);
    end if;

end EnV_ACN_Decode; 



function ASoE_Equal (val1, val2 :  ASoE) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end ASoE_Equal;

function ASoE_IsConstraintValid(val : ASoE) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 4));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ASOE);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := EnV_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end ASoE_IsConstraintValid;



procedure ASoE_ACN_Encode_aux(val : ASoE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := ASoE_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 1 AND val.Length <= 4;
        result.errorCode := ERR_ACN_ENCODE_ASOE;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 1, 2);
            i1 := 1;
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
                EnV_ACN_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end ASoE_ACN_Encode_aux;
procedure ASoE_ACN_Encode(val : ASoE; Stream : out ASoE_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ASoE_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ASoE_ACN_Encode_aux directly).
    Stream := ASoE_ACN_Stream'(Size_In_Bytes => ASoE_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ASoE_ACN_Encode_aux(val, Stream, result); 
end ASoE_ACN_Encode; 

procedure ASoE_ACN_Decode_aux(val:out ASoE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    nStringLength:Integer;
begin
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 4, 2, result.Success);
    result.errorCode := ERR_ACN_DECODE_ASOE;
    val.Length := nStringLength;
    i1 := 1;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
        EnV_ACN_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end ASoE_ACN_Decode_aux;
PROCEDURE ASoE_ACN_Decode(val: out ASoE; Stream : in out ASoE_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ASoE_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ASoE_IsConstraintValid(val);
    end if;

end ASoE_ACN_Decode; 



function EnW_Equal (val1, val2 :  EnW) return Boolean
is

begin
	return val1 = val2;

end EnW_Equal;

function EnW_IsConstraintValid(val : EnW) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = ew_a)) OR ((val = ew_b)))) OR ((val = ew_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ENW);
    return ret;
end EnW_IsConstraintValid;



procedure EnW_ACN_Encode_aux(val : EnW; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    result := EnW_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when ew_a    => intVal_val := -5;
            when ew_b    => intVal_val := 0;
            when ew_c    => intVal_val := 7000;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(bs, intVal_val);
    end if;
end EnW_ACN_Encode_aux;
procedure EnW_ACN_Encode(val : EnW; Stream : out EnW_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to EnW_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke EnW_ACN_Encode_aux directly).
    Stream := EnW_ACN_Stream'(Size_In_Bytes => EnW_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    EnW_ACN_Encode_aux(val, Stream, result); 
end EnW_ACN_Encode; 

procedure EnW_ACN_Decode_aux(val:out EnW; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(bs, intVal_val, -5, 7000, result);
    result.ErrorCode := ERR_ACN_DECODE_ENW;

    if result.Success then
        case intVal_val is
            when -5 => val := ew_a;
            when 0 => val := ew_b;
            when 7000 => val := ew_c;
        when others =>																				-- COVERAGE_IGNORE
            val := ew_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_ENW);	-- COVERAGE_IGNORE
        end case;
    else
        val := ew_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_ENW;																-- COVERAGE_IGNORE
    end if;
end EnW_ACN_Decode_aux;
PROCEDURE EnW_ACN_Decode(val: out EnW; Stream : in out EnW_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    EnW_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := EnW_IsConstraintValid(val);
    end if;

end EnW_ACN_Decode; 



function EnJ_Equal (val1, val2 :  EnJ) return Boolean
is

begin
	return val1 = val2;

end EnJ_Equal;

function EnJ_IsConstraintValid(val : EnJ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((((((val = k1)) OR ((val = k2)))) OR ((val = k3)))) OR ((val = k4)))) OR ((val = k5)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ENJ);
    return ret;
end EnJ_IsConstraintValid;



procedure EnJ_ACN_Encode_aux(val : EnJ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := EnJ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when k1    => intVal_val := 3;
            when k2    => intVal_val := 0;
            when k3    => intVal_val := 2;
            when k4    => intVal_val := 4;
            when k5    => intVal_val := 1;
        end case;
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, intVal_val, 0, 3);
    end if;
end EnJ_ACN_Encode_aux;
procedure EnJ_ACN_Encode(val : EnJ; Stream : out EnJ_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to EnJ_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke EnJ_ACN_Encode_aux directly).
    Stream := EnJ_ACN_Stream'(Size_In_Bytes => EnJ_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    EnJ_ACN_Encode_aux(val, Stream, result); 
end EnJ_ACN_Encode; 

procedure EnJ_ACN_Decode_aux(val:out EnJ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result.ErrorCode := ERR_ACN_DECODE_ENJ;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, intVal_val, 0, 4, 3, result.Success);
    if result.Success then
        case intVal_val is
            when 3 => val := k1;
            when 0 => val := k2;
            when 2 => val := k3;
            when 4 => val := k4;
            when 1 => val := k5;
        when others =>																				-- COVERAGE_IGNORE
            val := k1;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_ENJ);	-- COVERAGE_IGNORE
        end case;
    else
        val := k1;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_ENJ;																-- COVERAGE_IGNORE
    end if;
end EnJ_ACN_Decode_aux;
PROCEDURE EnJ_ACN_Decode(val: out EnJ; Stream : in out EnJ_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    EnJ_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := EnJ_IsConstraintValid(val);
    end if;

end EnJ_ACN_Decode; 



function EnK_Equal (val1, val2 :  EnK) return Boolean
is

begin
	return val1 = val2;

end EnK_Equal;

function EnK_IsConstraintValid(val : EnK) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = l1)) OR ((val = l2)))) OR ((val = l3)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ENK);
    return ret;
end EnK_IsConstraintValid;



procedure EnK_ACN_Encode_aux(val : EnK; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    result := EnK_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when l1    => intVal_val := 9;
            when l2    => intVal_val := -2;
            when l3    => intVal_val := 4;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_8(bs, intVal_val);
    end if;
end EnK_ACN_Encode_aux;
procedure EnK_ACN_Encode(val : EnK; Stream : out EnK_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to EnK_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke EnK_ACN_Encode_aux directly).
    Stream := EnK_ACN_Stream'(Size_In_Bytes => EnK_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    EnK_ACN_Encode_aux(val, Stream, result); 
end EnK_ACN_Encode; 

procedure EnK_ACN_Decode_aux(val:out EnK; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_8(bs, intVal_val, -2, 9, result);
    result.ErrorCode := ERR_ACN_DECODE_ENK;

    if result.Success then
        case intVal_val is
            when 9 => val := l1;
            when -2 => val := l2;
            when 4 => val := l3;
        when others =>																				-- COVERAGE_IGNORE
            val := l1;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_ENK);	-- COVERAGE_IGNORE
        end case;
    else
        val := l1;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_ENK;																-- COVERAGE_IGNORE
    end if;
end EnK_ACN_Decode_aux;
PROCEDURE EnK_ACN_Decode(val: out EnK; Stream : in out EnK_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    EnK_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := EnK_IsConstraintValid(val);
    end if;

end EnK_ACN_Decode; 



function Oths_Equal (val1, val2 :  Oths) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (adaasn1rtl.Asn1Real_Equal(val1.o_a, val2.o_a));

    if ret then
        ret := (adaasn1rtl.Asn1Real_Equal(val1.o_b, val2.o_b));

        if ret then
            ret := (adaasn1rtl.Asn1Real_Equal(val1.o_c, val2.o_c));

            if ret then
                ret := (adaasn1rtl.Asn1Real_Equal(val1.o_d, val2.o_d));

                if ret then
                    ret := (val1.o_e = val2.o_e);

                    if ret then
                        ret := (val1.o_f = val2.o_f);

                        if ret then
                            ret := (val1.o_h = val2.o_h);

                            if ret then
                                ret := (val1.o_i = val2.o_i);

                                if ret then
                                    ret := (val1.o_j = val2.o_j);

                                    if ret then
                                        ret := (val1.o_k = val2.o_k);

                                        if ret then
                                            ret := (adaasn1rtl.Asn1Real_Equal(val1.o_l, val2.o_l));

                                            if ret then
                                                ret := (val1.o_m = val2.o_m);

                                                if ret then
                                                    ret := (val1.o_n = val2.o_n);

                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Oths_Equal;

function Oths_IsConstraintValid(val : Oths) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := R32_IsConstraintValid(val.o_a);
    if ret.Success then
        ret := R64_IsConstraintValid(val.o_b);
        if ret.Success then
            ret := R64L_IsConstraintValid(val.o_c);
            if ret.Success then
                ret := RU_IsConstraintValid(val.o_d);
                if ret.Success then
                    ret := BT_IsConstraintValid(val.o_e);
                    if ret.Success then
                        ret := BTF_IsConstraintValid(val.o_f);
                        if ret.Success then
                            ret := En_IsConstraintValid(val.o_h);
                            if ret.Success then
                                ret := EnV_IsConstraintValid(val.o_i);
                                if ret.Success then
                                    ret := EnW_IsConstraintValid(val.o_j);
                                    if ret.Success then
                                        ret := BF_IsConstraintValid(val.o_k);
                                        if ret.Success then
                                            ret := R32L_IsConstraintValid(val.o_l);
                                            if ret.Success then
                                                ret := EnJ_IsConstraintValid(val.o_m);
                                                if ret.Success then
                                                    ret := EnK_IsConstraintValid(val.o_n);
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Oths_IsConstraintValid;



procedure Oths_ACN_Encode_aux(val : Oths; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Oths_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode o_a
        R32_ACN_Encode_aux(val.o_a, bs, result);
        if result.Success then
            -- Encode o_b
            R64_ACN_Encode_aux(val.o_b, bs, result);
            if result.Success then
                -- Encode o_c
                R64L_ACN_Encode_aux(val.o_c, bs, result);
                if result.Success then
                    -- Encode o_d
                    RU_ACN_Encode_aux(val.o_d, bs, result);
                    if result.Success then
                        -- Encode o_e
                        BT_ACN_Encode_aux(val.o_e, bs, result);
                        if result.Success then
                            -- Encode o_f
                            BTF_ACN_Encode_aux(val.o_f, bs, result);
                            if result.Success then
                                -- Encode o_g
                                NP_ACN_Encode_aux(val.o_g, bs, result);
                                if result.Success then
                                    -- Encode o_h
                                    En_ACN_Encode_aux(val.o_h, bs, result);
                                    if result.Success then
                                        -- Encode o_i
                                        EnV_ACN_Encode_aux(val.o_i, bs, result);
                                        if result.Success then
                                            -- Encode o_j
                                            EnW_ACN_Encode_aux(val.o_j, bs, result);
                                            if result.Success then
                                                -- Encode o_k
                                                BF_ACN_Encode_aux(val.o_k, bs, result);
                                                if result.Success then
                                                    -- Encode o_l
                                                    R32L_ACN_Encode_aux(val.o_l, bs, result);
                                                    if result.Success then
                                                        -- Encode o_m
                                                        EnJ_ACN_Encode_aux(val.o_m, bs, result);
                                                        if result.Success then
                                                            -- Encode o_n
                                                            EnK_ACN_Encode_aux(val.o_n, bs, result);
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Oths_ACN_Encode_aux;
procedure Oths_ACN_Encode(val : Oths; Stream : out Oths_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Oths_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Oths_ACN_Encode_aux directly).
    Stream := Oths_ACN_Stream'(Size_In_Bytes => Oths_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Oths_ACN_Encode_aux(val, Stream, result); 
end Oths_ACN_Encode; 

procedure Oths_ACN_Decode_aux(val:out Oths; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode o_a
    R32_ACN_Decode_aux(val.o_a, bs, result);
    if result.Success then
        -- Decode o_b
        R64_ACN_Decode_aux(val.o_b, bs, result);
        if result.Success then
            -- Decode o_c
            R64L_ACN_Decode_aux(val.o_c, bs, result);
            if result.Success then
                -- Decode o_d
                RU_ACN_Decode_aux(val.o_d, bs, result);
                if result.Success then
                    -- Decode o_e
                    BT_ACN_Decode_aux(val.o_e, bs, result);
                    if result.Success then
                        -- Decode o_f
                        BTF_ACN_Decode_aux(val.o_f, bs, result);
                        if result.Success then
                            -- Decode o_g
                            NP_ACN_Decode_aux(val.o_g, bs, result);
                            if result.Success then
                                -- Decode o_h
                                En_ACN_Decode_aux(val.o_h, bs, result);
                                if result.Success then
                                    -- Decode o_i
                                    EnV_ACN_Decode_aux(val.o_i, bs, result);
                                    if result.Success then
                                        -- Decode o_j
                                        EnW_ACN_Decode_aux(val.o_j, bs, result);
                                        if result.Success then
                                            -- Decode o_k
                                            BF_ACN_Decode_aux(val.o_k, bs, result);
                                            if result.Success then
                                                -- Decode o_l
                                                R32L_ACN_Decode_aux(val.o_l, bs, result);
                                                if result.Success then
                                                    -- Decode o_m
                                                    EnJ_ACN_Decode_aux(val.o_m, bs, result);
                                                    if result.Success then
                                                        -- Decode o_n
                                                        EnK_ACN_Decode_aux(val.o_n, bs, result);
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Oths_ACN_Decode_aux;
PROCEDURE Oths_ACN_Decode(val: out Oths; Stream : in out Oths_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Oths_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Oths_IsConstraintValid(val);
    end if;

end Oths_ACN_Decode; 



function OFx_Equal (val1, val2 :  OFx) return Boolean
is

begin
	return val1.Data = val2.Data;

end OFx_Equal;

function OFx_IsConstraintValid(val : OFx) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end OFx_IsConstraintValid;



procedure OFx_ACN_Encode_aux(val : OFx; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := OFx_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(3));
    end if;
end OFx_ACN_Encode_aux;
procedure OFx_ACN_Encode(val : OFx; Stream : out OFx_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to OFx_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke OFx_ACN_Encode_aux directly).
    Stream := OFx_ACN_Stream'(Size_In_Bytes => OFx_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    OFx_ACN_Encode_aux(val, Stream, result); 
end OFx_ACN_Encode; 

procedure OFx_ACN_Decode_aux(val:out OFx; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
    adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(3), result.success);
end OFx_ACN_Decode_aux;
PROCEDURE OFx_ACN_Decode(val: out OFx; Stream : in out OFx_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    OFx_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := OFx_IsConstraintValid(val);
    end if;

end OFx_ACN_Decode; 



function OV_Equal (val1, val2 :  OV) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OV_Equal;

function OV_IsConstraintValid(val : OV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 30);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OV);
    return ret;
end OV_IsConstraintValid;



procedure OV_ACN_Encode_aux(val : OV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := OV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 30;
        result.errorCode := ERR_ACN_ENCODE_OV;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 5);
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(val.Length));
        end if;
    end if;
end OV_ACN_Encode_aux;
procedure OV_ACN_Encode(val : OV; Stream : out OV_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to OV_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke OV_ACN_Encode_aux directly).
    Stream := OV_ACN_Stream'(Size_In_Bytes => OV_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    OV_ACN_Encode_aux(val, Stream, result); 
end OV_ACN_Encode; 

procedure OV_ACN_Decode_aux(val:out OV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    nStringLength:Integer;
begin
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 30, 5, result.Success);
    result.errorCode := ERR_ACN_DECODE_OV;
    val.Length := nStringLength;
    if result.Success then
        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(val.Length), result.success);
    end if;
end OV_ACN_Decode_aux;
PROCEDURE OV_ACN_Decode(val: out OV; Stream : in out OV_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    OV_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := OV_IsConstraintValid(val);
    end if;

end OV_ACN_Decode; 



function DPr_e_x_Equal (val1, val2 :  DPr_e_x) return Boolean
is

begin
	return val1 = val2;

end DPr_e_x_Equal;

function DPr_Equal (val1, val2 :  DPr) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DPr_e_x_Equal(val1.e_x, val2.e_x);

    if ret then
        ret := val1.Exist.e_a = val2.Exist.e_a;
        if ret and then val1.Exist.e_a = 1 then
            ret := (val1.e_a = val2.e_a);
        end if;

        if ret then
            ret := val1.Exist.e_b = val2.Exist.e_b;
            if ret and then val1.Exist.e_b = 1 then
                ret := OV_Equal(val1.e_b, val2.e_b);
            end if;

            if ret then
                ret := val1.Exist.e_c = val2.Exist.e_c;
                if ret and then val1.Exist.e_c = 1 then
                    ret := (val1.e_c = val2.e_c);
                end if;

                if ret then
                    ret := val1.Exist.e_d = val2.Exist.e_d;
                    if ret and then val1.Exist.e_d = 1 then
                        ret := (val1.e_d = val2.e_d);
                    end if;

                end if;
            end if;
        end if;
    end if;
	return ret;

end DPr_Equal;

function DPr_e_x_IsConstraintValid(val : DPr_e_x) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DPR_E_X);
    return ret;
end DPr_e_x_IsConstraintValid;

function DPr_IsConstraintValid(val : DPr) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DPr_e_x_IsConstraintValid(val.e_x);
    if ret.Success then
        if val.Exist.e_a = 1 then
            ret := P16_IsConstraintValid(val.e_a);
        end if;
        if ret.Success then
            if val.Exist.e_b = 1 then
                ret := OV_IsConstraintValid(val.e_b);
            end if;
            if ret.Success then
                if val.Exist.e_c = 1 then
                    ret := T5_IsConstraintValid(val.e_c);
                end if;
                if ret.Success then
                    if val.Exist.e_d = 1 then
                        ret := P8_IsConstraintValid(val.e_d);
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end DPr_IsConstraintValid;




procedure DPr_ACN_Encode_aux(val : DPr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPr_has_a:adaasn1rtl.Asn1Boolean;
    DPr_has_a_is_initialized:Boolean:=False;
    DPr_has_b:adaasn1rtl.Asn1Boolean;
    DPr_has_b_is_initialized:Boolean:=False;
begin
    result := DPr_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.e_c);
        if result.Success then
            adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.e_d);
            if result.Success then
                DPr_has_a_is_initialized := True;
                DPr_has_a := (val.exist.e_a = 1);
                if result.Success then
                    --Encode DPr_has_a
                    if DPr_has_a_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, DPr_has_a);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DPR_HAS_A_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode e_x
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.e_x, 0, 2);
                    if result.Success then
                        -- Encode e_a
                        if val.Exist.e_a = 1 then
                        	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, val.e_a);
                        end if;
                        if result.Success then
                            DPr_has_b_is_initialized := True;
                            DPr_has_b := (val.exist.e_b = 1);
                            if result.Success then
                                --Encode DPr_has_b
                                if DPr_has_b_is_initialized then
                                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                                    adaasn1rtl.encoding.acn.Acn_Enc_Boolean_true_false_pattern(bs, DPr_has_b, BitArray'(1=>1,2=>1,3=>1,4=>1), BitArray'(1=>0,2=>0,3=>0,4=>0));
                                else
                                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DPR_HAS_B_UNINITIALIZED); --COVERAGE_IGNORE
                                end if;
                            end if;
                            if result.Success then
                                -- Encode e_b
                                if val.Exist.e_b = 1 then
                                	result.Success := val.e_b.Length >= 0 AND val.e_b.Length <= 30;
                                	result.errorCode := ERR_ACN_ENCODE_DPR_E_B;
                                	if result.Success then
                                	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.e_b.Length), 0, 5);
                                	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.e_b.Data, Integer(val.e_b.Length));
                                	end if;
                                end if;
                                if result.Success then
                                    -- Encode e_c
                                    if val.Exist.e_c = 1 then
                                    	T5_ACN_Encode_aux(val.e_c, bs, result);
                                    end if;
                                    if result.Success then
                                        -- Encode e_d
                                        if val.Exist.e_d = 1 then
                                        	P8_ACN_Encode_aux(val.e_d, bs, result);
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DPr_ACN_Encode_aux;
procedure DPr_ACN_Encode(val : DPr; Stream : out DPr_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DPr_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DPr_ACN_Encode_aux directly).
    Stream := DPr_ACN_Stream'(Size_In_Bytes => DPr_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DPr_ACN_Encode_aux(val, Stream, result); 
end DPr_ACN_Encode; 

procedure DPr_ACN_Decode_aux(val:out DPr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPr_has_a:adaasn1rtl.Asn1Boolean;
    DPr_has_b:adaasn1rtl.Asn1Boolean;
    nStringLength:Integer;
    e_c_exist:adaasn1rtl.BIT;
    e_d_exist:adaasn1rtl.BIT;
begin
    result.ErrorCode := ERR_ACN_DECODE_DPR;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, e_c_exist, result.Success);
    val.Exist.e_c := e_c_exist;
    if result.Success then
        result.ErrorCode := ERR_ACN_DECODE_DPR;
        adaasn1rtl.encoding.BitStream_ReadBit(bs, e_d_exist, result.Success);
        val.Exist.e_d := e_d_exist;
        if result.Success then
            -- Decode DPr_has_a
            result.ErrorCode := ERR_ACN_DECODE_DPR_HAS_A;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, DPr_has_a, result.Success);
            if result.Success then
                -- Decode e_x
                result.ErrorCode := ERR_ACN_DECODE_DPR_E_X;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.e_x, 0, 3, 2, result.Success);
                if result.Success then
                    val.Exist.e_a := (if DPr_has_a then 1 else 0);
                    result.Success := true;
                    -- Decode e_a
                    if val.Exist.e_a = 1 then
                    	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, val.e_a, 0, 65535, result);
                    	result.ErrorCode := ERR_ACN_DECODE_DPR_E_A;

                    end if;
                    if result.Success then
                        -- Decode DPr_has_b
                        adaasn1rtl.encoding.acn.Acn_Dec_Boolean_true_false_pattern(bs, DPr_has_b, BitArray'(1=>1,2=>1,3=>1,4=>1), BitArray'(1=>0,2=>0,3=>0,4=>0), result);
                        result.ErrorCode := ERR_ACN_DECODE_DPR_HAS_B;
                        if result.Success then
                            val.Exist.e_b := (if DPr_has_b then 1 else 0);
                            result.Success := true;
                            -- Decode e_b
                            if val.Exist.e_b = 1 then
                            	adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 30, 5, result.Success);
                            	result.errorCode := ERR_ACN_DECODE_DPR_E_B;
                            	val.e_b.Length := nStringLength;
                            	if result.Success then
                            	    adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.e_b.Data, Integer(val.e_b.Length), result.success);
                            	end if;
                            end if;
                            if result.Success then
                                -- Decode e_c
                                if val.Exist.e_c = 1 then
                                	T5_ACN_Decode_aux(val.e_c, bs, result);
                                end if;
                                if result.Success then
                                    -- Decode e_d
                                    if val.Exist.e_d = 1 then
                                    	P8_ACN_Decode_aux(val.e_d, bs, result);
                                    else
                                        val.e_d := 9;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DPr_ACN_Decode_aux;
PROCEDURE DPr_ACN_Decode(val: out DPr; Stream : in out DPr_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DPr_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DPr_IsConstraintValid(val);
    end if;

end DPr_ACN_Decode; 



function DPwC_Equal (val1, val2 :  DPwC) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when w1_PRESENT =>
                ret := (val1.w1 = val2.w1);
            when w2_PRESENT =>
                ret := (val1.w2 = val2.w2);
            when w3_PRESENT =>
                ret := OV_Equal(val1.w3, val2.w3);
        end case;
    end if;
	return ret;

end DPwC_Equal;

function DPwC_IsConstraintValid(val : DPwC) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN w1_PRESENT =>
            ret := P8_IsConstraintValid(val.w1);
        WHEN w2_PRESENT =>
            ret := BT_IsConstraintValid(val.w2);
        WHEN w3_PRESENT =>
            ret := OV_IsConstraintValid(val.w3);
    end case;
    return ret;
end DPwC_IsConstraintValid;





function DPw_Equal (val1, val2 :  DPw) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.w_m = val2.w_m);

    if ret then
        ret := DPwC_Equal(val1.w_c, val2.w_c);

    end if;
	return ret;

end DPw_Equal;

function DPw_IsConstraintValid(val : DPw) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DPwC_IsConstraintValid(val.w_c);
    return ret;
end DPw_IsConstraintValid;



procedure DPw_ACN_Encode_aux(val : DPw; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPw_tag1:adaasn1rtl.Asn1UInt;
    DPw_tag1_is_initialized:Boolean:=False;
begin
    result := DPw_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val.w_c.kind is
            when w1_PRESENT =>
                DPw_tag1_is_initialized := True;
            	DPw_tag1 := 10;
            when w2_PRESENT =>
                DPw_tag1_is_initialized := True;
            	DPw_tag1 := 20;
            when w3_PRESENT =>
                DPw_tag1_is_initialized := True;
            	DPw_tag1 := 30;
        end case;
        if result.Success then
            --Encode DPw_tag1
            if DPw_tag1_is_initialized then
                result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DPw_tag1);
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DPW_TAG1_UNINITIALIZED); --COVERAGE_IGNORE
            end if;
        end if;
        if result.Success then
            -- Encode w_m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.w_m);
            if result.Success then
                -- Encode w_c
                case val.w_c.kind is
                    when w1_PRESENT =>
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.w_c.w1);
                    when w2_PRESENT =>
                    	adaasn1rtl.encoding.acn.Acn_Enc_Boolean_true_pattern(bs, val.w_c.w2, BitArray'(1=>1,2=>0,3=>1,4=>1));

                    when w3_PRESENT =>
                    	result.Success := val.w_c.w3.Length >= 0 AND val.w_c.w3.Length <= 30;
                    	result.errorCode := ERR_ACN_ENCODE_DPW_W_C_W3;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.w_c.w3.Length), 0, 5);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.w_c.w3.Data, Integer(val.w_c.w3.Length));
                    	end if;
                end case;
            end if;
        end if;
    end if;
end DPw_ACN_Encode_aux;
procedure DPw_ACN_Encode(val : DPw; Stream : out DPw_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DPw_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DPw_ACN_Encode_aux directly).
    Stream := DPw_ACN_Stream'(Size_In_Bytes => DPw_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DPw_ACN_Encode_aux(val, Stream, result); 
end DPw_ACN_Encode; 

procedure DPw_ACN_Decode_aux(val:out DPw; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPw_tag1:adaasn1rtl.Asn1UInt;
    nStringLength:Integer;
begin
    -- Decode DPw_tag1
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DPw_tag1, 0, 255, result);
    result.ErrorCode := ERR_ACN_DECODE_DPW_TAG1;

    if result.Success then
        -- Decode w_m
        result.ErrorCode := ERR_ACN_DECODE_DPW_W_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.w_m, result.Success);
        if result.Success then
            -- Decode w_c
            result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
            if ((DPw_tag1 = 10)) then
              val.w_c := DPwC'(kind => w1_PRESENT, w1 => 0);
              adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.w_c.w1, 0, 255, result);
              result.ErrorCode := ERR_ACN_DECODE_DPW_W_C_W1;

            elsif ((DPw_tag1 = 20)) then
              val.w_c := DPwC'(kind => w2_PRESENT, w2 => False);
              adaasn1rtl.encoding.acn.Acn_Dec_Boolean_true_pattern(bs, val.w_c.w2, BitArray'(1=>1,2=>0,3=>1,4=>1), result);
              result.ErrorCode := ERR_ACN_DECODE_DPW_W_C_W2;
            elsif ((DPw_tag1 = 30)) then
              val.w_c := DPwC'(kind => w3_PRESENT, w3 => (Length => 0, Data => (others => 0)));
              adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 30, 5, result.Success);
              result.errorCode := ERR_ACN_DECODE_DPW_W_C_W3;
              val.w_c.w3.Length := nStringLength;
              if result.Success then
                  adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.w_c.w3.Data, Integer(val.w_c.w3.Length), result.success);
              end if;
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_DPW_W_C);		-- COVERAGE_IGNORE
            end if;
        end if;
    end if;
end DPw_ACN_Decode_aux;
PROCEDURE DPw_ACN_Decode(val: out DPw; Stream : in out DPw_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DPw_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DPw_IsConstraintValid(val);
    end if;

end DPw_ACN_Decode; 



function BF9_Equal (val1, val2 :  BF9) return Boolean
is

begin
	return val1.Data = val2.Data;

end BF9_Equal;

function BF9_IsConstraintValid(val : BF9) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end BF9_IsConstraintValid;



procedure BF9_ACN_Encode_aux(val : BF9; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BF9_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, Integer(9));
    end if;
end BF9_ACN_Encode_aux;
procedure BF9_ACN_Encode(val : BF9; Stream : out BF9_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BF9_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BF9_ACN_Encode_aux directly).
    Stream := BF9_ACN_Stream'(Size_In_Bytes => BF9_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BF9_ACN_Encode_aux(val, Stream, result); 
end BF9_ACN_Encode; 

procedure BF9_ACN_Decode_aux(val:out BF9; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.Data, Integer(9), result.success);
    if not result.Success then
        result.errorcode := ERR_ACN_DECODE_BF9; -- COVERAGE_IGNORE
    end if;
end BF9_ACN_Decode_aux;
PROCEDURE BF9_ACN_Decode(val: out BF9; Stream : in out BF9_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BF9_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BF9_IsConstraintValid(val);
    end if;

end BF9_ACN_Decode; 



function BV_Equal (val1, val2 :  BV) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BV_Equal;

function BV_IsConstraintValid(val : BV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 40));
    ret.ErrorCode := (if ret.Success then 0 else ERR_BV);
    return ret;
end BV_IsConstraintValid;



procedure BV_ACN_Encode_aux(val : BV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 1 AND val.Length <= 40;
        result.errorCode := ERR_ACN_ENCODE_BV;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 1, 6);
            adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, Integer(val.Length));
        end if;
    end if;
end BV_ACN_Encode_aux;
procedure BV_ACN_Encode(val : BV; Stream : out BV_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BV_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BV_ACN_Encode_aux directly).
    Stream := BV_ACN_Stream'(Size_In_Bytes => BV_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BV_ACN_Encode_aux(val, Stream, result); 
end BV_ACN_Encode; 

procedure BV_ACN_Decode_aux(val:out BV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    nStringLength:Integer;
begin
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 40, 6, result.Success);
    result.errorCode := ERR_ACN_DECODE_BV;
    if result.Success then
    	val.Length := nStringLength;
    	adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.Data, Integer(val.Length), result.success);
    	if not result.Success then
    	    result.errorcode := ERR_ACN_DECODE_BV; -- COVERAGE_IGNORE
    	end if;
    end if;
end BV_ACN_Decode_aux;
PROCEDURE BV_ACN_Decode(val: out BV; Stream : in out BV_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BV_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BV_IsConstraintValid(val);
    end if;

end BV_ACN_Decode; 



function SI_Equal (val1, val2 :  SI) return Boolean
is

begin
	return val1 = val2;

end SI_Equal;

function SI_IsConstraintValid(val : SI) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 12);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SI);
    return ret;
end SI_IsConstraintValid;



procedure SI_ACN_Encode_aux(val : SI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := SI_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 0 AND nStringLength <= 12;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 0, 4);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 7*(i1-1));
                charIndex := adaasn1rtl.CharacterPos(val(i1));
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 7);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end SI_ACN_Encode_aux;
procedure SI_ACN_Encode(val : SI; Stream : out SI_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to SI_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke SI_ACN_Encode_aux directly).
    Stream := SI_ACN_Stream'(Size_In_Bytes => SI_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    SI_ACN_Encode_aux(val, Stream, result); 
end SI_ACN_Encode; 

procedure SI_ACN_Decode_aux(val:out SI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    --val := SI_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 12, 4, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 7*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 127, 7, result.Success);
        result.ErrorCode := ERR_ACN_DECODE_SI;
        val(i1) := Character'Val(charIndex);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 12 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=12 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end SI_ACN_Decode_aux;
PROCEDURE SI_ACN_Decode(val: out SI; Stream : in out SI_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    SI_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := SI_IsConstraintValid(val);
    end if;

end SI_ACN_Decode; 



function SA_Equal (val1, val2 :  SA) return Boolean
is

begin
	return val1 = val2;

end SA_Equal;

function SA_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (('A' <= str(i)) AND (str(i) <= 'P'));
        I := I + 1;
    end loop;
    return ret;
end SA_CharsAreValid_0;
function SA_IsConstraintValid(val : SA) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((3 <= adaasn1rtl.getStringSize(val)) AND (adaasn1rtl.getStringSize(val) <= 8));
    if ret.Success then
        ret.Success := SA_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_SA);
    return ret;
end SA_IsConstraintValid;



procedure SA_ACN_Encode_aux(val : SA; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := SA_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 3 AND nStringLength <= 8;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 3, 3);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 4*(i1-1));
                charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), SA_alpha_set);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 4);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end SA_ACN_Encode_aux;
procedure SA_ACN_Encode(val : SA; Stream : out SA_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to SA_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke SA_ACN_Encode_aux directly).
    Stream := SA_ACN_Stream'(Size_In_Bytes => SA_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    SA_ACN_Encode_aux(val, Stream, result); 
end SA_ACN_Encode; 

procedure SA_ACN_Decode_aux(val:out SA; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    --val := SA_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 3, 8, 3, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 4*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 15, 4, result.Success);
        result.ErrorCode := ERR_ACN_DECODE_SA;
        val(i1) := SA_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 8 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=8 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end SA_ACN_Decode_aux;
PROCEDURE SA_ACN_Decode(val: out SA; Stream : in out SA_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    SA_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := SA_IsConstraintValid(val);
    end if;

end SA_ACN_Decode; 



function S8_Equal (val1, val2 :  S8) return Boolean
is

begin
	return val1 = val2;

end S8_Equal;

function S8_IsConstraintValid(val : S8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) = 4);
    ret.ErrorCode := (if ret.Success then 0 else ERR_S8);
    return ret;
end S8_IsConstraintValid;



procedure S8_ACN_Encode_aux(val : S8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := S8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_FixSize(bs, val);
    end if;
end S8_ACN_Encode_aux;
procedure S8_ACN_Encode(val : S8; Stream : out S8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to S8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke S8_ACN_Encode_aux directly).
    Stream := S8_ACN_Stream'(Size_In_Bytes => S8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    S8_ACN_Encode_aux(val, Stream, result); 
end S8_ACN_Encode; 

procedure S8_ACN_Decode_aux(val:out S8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_FixSize(bs, val, result);
    result.ErrorCode := ERR_ACN_DECODE_S8;
end S8_ACN_Decode_aux;
PROCEDURE S8_ACN_Decode(val: out S8; Stream : in out S8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    S8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := S8_IsConstraintValid(val);
    end if;

end S8_ACN_Decode; 



function SNT_Equal (val1, val2 :  SNT) return Boolean
is

begin
	return val1 = val2;

end SNT_Equal;

function SNT_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (('A' <= str(i)) AND (str(i) <= 'Z'));
        I := I + 1;
    end loop;
    return ret;
end SNT_CharsAreValid_0;
function SNT_IsConstraintValid(val : SNT) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 10);
    if ret.Success then
        ret.Success := SNT_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_SNT);
    return ret;
end SNT_IsConstraintValid;



procedure SNT_ACN_Encode_aux(val : SNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := SNT_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_Null_Terminated(bs, adaasn1rtl.OctetBuffer'(1=>0), val);
    end if;
end SNT_ACN_Encode_aux;
procedure SNT_ACN_Encode(val : SNT; Stream : out SNT_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to SNT_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke SNT_ACN_Encode_aux directly).
    Stream := SNT_ACN_Stream'(Size_In_Bytes => SNT_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    SNT_ACN_Encode_aux(val, Stream, result); 
end SNT_ACN_Encode; 

procedure SNT_ACN_Decode_aux(val:out SNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_Null_Terminated(bs, adaasn1rtl.OctetBuffer'(1=>0), val, result);
    result.ErrorCode := ERR_ACN_DECODE_SNT;
end SNT_ACN_Decode_aux;
PROCEDURE SNT_ACN_Decode(val: out SNT; Stream : in out SNT_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    SNT_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := SNT_IsConstraintValid(val);
    end if;

end SNT_ACN_Decode; 



function AChc_Equal (val1, val2 :  AChc) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when ca_PRESENT =>
                ret := (val1.ca = val2.ca);
            when cb_PRESENT =>
                ret := (val1.cb = val2.cb);
            when cc_PRESENT =>
                ret := OV_Equal(val1.cc, val2.cc);
            when cd_PRESENT =>
                ret := (val1.cd = val2.cd);
        end case;
    end if;
	return ret;

end AChc_Equal;

function AChc_IsConstraintValid(val : AChc) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN ca_PRESENT =>
            ret := P8_IsConstraintValid(val.ca);
        WHEN cb_PRESENT =>
            ret := BT_IsConstraintValid(val.cb);
        WHEN cc_PRESENT =>
            ret := OV_IsConstraintValid(val.cc);
        WHEN cd_PRESENT =>
            ret := SNT_IsConstraintValid(val.cd);
    end case;
    return ret;
end AChc_IsConstraintValid;



procedure AChc_ACN_Encode_aux(val : AChc; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AChc_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val.kind is
            when ca_PRESENT =>
                adaasn1rtl.encoding.Enc_ConstraintWholeNumber(bs, 0, 0, 2);
            	P8_ACN_Encode_aux(val.ca, bs, result);
            when cb_PRESENT =>
                adaasn1rtl.encoding.Enc_ConstraintWholeNumber(bs, 1, 0, 2);
            	BT_ACN_Encode_aux(val.cb, bs, result);
            when cc_PRESENT =>
                adaasn1rtl.encoding.Enc_ConstraintWholeNumber(bs, 2, 0, 2);
            	OV_ACN_Encode_aux(val.cc, bs, result);
            when cd_PRESENT =>
                adaasn1rtl.encoding.Enc_ConstraintWholeNumber(bs, 3, 0, 2);
            	SNT_ACN_Encode_aux(val.cd, bs, result);
        end case;
    end if;
end AChc_ACN_Encode_aux;
procedure AChc_ACN_Encode(val : AChc; Stream : out AChc_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AChc_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AChc_ACN_Encode_aux directly).
    Stream := AChc_ACN_Stream'(Size_In_Bytes => AChc_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AChc_ACN_Encode_aux(val, Stream, result); 
end AChc_ACN_Encode; 

procedure AChc_ACN_Decode_aux(val:out AChc; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    ACM_AChc_index_tmp:adaasn1rtl.Asn1Int;
begin
    result.ErrorCode := ERR_ACN_DECODE_ACHC;
    adaasn1rtl.encoding.Dec_ConstraintWholeNumber(bs, ACM_AChc_index_tmp, 0, 3, 2, result.Success);
    if result.Success AND ACM_AChc_index_tmp >= 0 AND  ACM_AChc_index_tmp <= 3 then
        case AChc_index_range(ACM_AChc_index_tmp) is
            when 0 =>
              val := AChc'(kind => ca_PRESENT, ca => 0);
              P8_ACN_Decode_aux(val.ca, bs, result);
            when 1 =>
              val := AChc'(kind => cb_PRESENT, cb => False);
              BT_ACN_Decode_aux(val.cb, bs, result);
            when 2 =>
              val := AChc'(kind => cc_PRESENT, cc => (Length => 0, Data => (others => 0)));
              OV_ACN_Decode_aux(val.cc, bs, result);
            when 3 =>
              val := AChc'(kind => cd_PRESENT, cd => (1 .. 10 => 'A', 11 => adaasn1rtl.NUL));
              SNT_ACN_Decode_aux(val.cd, bs, result);
        end case;
    end if;
end AChc_ACN_Decode_aux;
PROCEDURE AChc_ACN_Decode(val: out AChc; Stream : in out AChc_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AChc_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AChc_IsConstraintValid(val);
    end if;

end AChc_ACN_Decode; 



function SNM_Equal (val1, val2 :  SNM) return Boolean
is

begin
	return val1 = val2;

end SNM_Equal;

function SNM_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (('A' <= str(i)) AND (str(i) <= 'Z'));
        I := I + 1;
    end loop;
    return ret;
end SNM_CharsAreValid_0;
function SNM_IsConstraintValid(val : SNM) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= adaasn1rtl.getStringSize(val)) AND (adaasn1rtl.getStringSize(val) <= 10));
    if ret.Success then
        ret.Success := SNM_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_SNM);
    return ret;
end SNM_IsConstraintValid;



procedure SNM_ACN_Encode_aux(val : SNM; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := SNM_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_Null_Terminated(bs, adaasn1rtl.OctetBuffer'(1=>1, 2=>2), val);
    end if;
end SNM_ACN_Encode_aux;
procedure SNM_ACN_Encode(val : SNM; Stream : out SNM_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to SNM_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke SNM_ACN_Encode_aux directly).
    Stream := SNM_ACN_Stream'(Size_In_Bytes => SNM_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    SNM_ACN_Encode_aux(val, Stream, result); 
end SNM_ACN_Encode; 

procedure SNM_ACN_Decode_aux(val:out SNM; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_Null_Terminated(bs, adaasn1rtl.OctetBuffer'(1=>1, 2=>2), val, result);
    result.ErrorCode := ERR_ACN_DECODE_SNM;
end SNM_ACN_Decode_aux;
PROCEDURE SNM_ACN_Decode(val: out SNM; Stream : in out SNM_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    SNM_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := SNM_IsConstraintValid(val);
    end if;

end SNM_ACN_Decode; 



function BNT_Equal (val1, val2 :  BNT) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BNT_Equal;

function BNT_IsConstraintValid(val : BNT) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 20));
    ret.ErrorCode := (if ret.Success then 0 else ERR_BNT);
    return ret;
end BNT_IsConstraintValid;



procedure BNT_ACN_Encode_aux(val : BNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BNT_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, val.Length);
        adaasn1rtl.encoding.BitStream_AppendBits(bs, adaasn1rtl.OctetBuffer'(1=>16#0F#, 
                                                                             2=>16#0F#), 16);
    end if;
end BNT_ACN_Encode_aux;
procedure BNT_ACN_Encode(val : BNT; Stream : out BNT_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to BNT_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke BNT_ACN_Encode_aux directly).
    Stream := BNT_ACN_Stream'(Size_In_Bytes => BNT_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    BNT_ACN_Encode_aux(val, Stream, result); 
end BNT_ACN_Encode; 

procedure BNT_ACN_Decode_aux(val:out BNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    declare
        nDecodedBits : Natural;
    begin
        adaasn1rtl.encoding.BitStream_ReadBits_nullterminated(bs, val.Data, nDecodedBits, adaasn1rtl.OctetBuffer'(
                                                                                                                  1=>16#0F#, 
                                                                                                                  2=>16#0F#), 16, result.Success);
        result.Success := result.Success and then nDecodedBits >= 1;
        if result.Success then
            val.Length := nDecodedBits;
        else
            result.errorcode := ERR_ACN_DECODE_BNT;		-- COVERAGE_IGNORE
        end if;
    end;
end BNT_ACN_Decode_aux;
PROCEDURE BNT_ACN_Decode(val: out BNT; Stream : in out BNT_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    BNT_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := BNT_IsConstraintValid(val);
    end if;

end BNT_ACN_Decode; 



function Strs_Equal (val1, val2 :  Strs) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.s_a = val2.s_a);

    if ret then
        ret := (val1.s_b = val2.s_b);

        if ret then
            ret := (val1.s_c = val2.s_c);

            if ret then
                ret := (val1.s_d = val2.s_d);

                if ret then
                    ret := BNT_Equal(val1.s_e, val2.s_e);

                    if ret then
                        ret := (val1.s_f = val2.s_f);

                        if ret then
                            ret := OFx_Equal(val1.s_g, val2.s_g);

                            if ret then
                                ret := BV_Equal(val1.s_h, val2.s_h);

                                if ret then
                                    ret := BF9_Equal(val1.s_i, val2.s_i);

                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Strs_Equal;

function Strs_IsConstraintValid(val : Strs) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := SI_IsConstraintValid(val.s_a);
    if ret.Success then
        ret := SNT_IsConstraintValid(val.s_b);
        if ret.Success then
            ret := SNM_IsConstraintValid(val.s_c);
            if ret.Success then
                ret := S8_IsConstraintValid(val.s_d);
                if ret.Success then
                    ret := BNT_IsConstraintValid(val.s_e);
                    if ret.Success then
                        ret := SA_IsConstraintValid(val.s_f);
                        if ret.Success then
                            ret := OFx_IsConstraintValid(val.s_g);
                            if ret.Success then
                                ret := BV_IsConstraintValid(val.s_h);
                                if ret.Success then
                                    ret := BF9_IsConstraintValid(val.s_i);
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Strs_IsConstraintValid;



procedure Strs_ACN_Encode_aux(val : Strs; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Strs_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode s_a
        SI_ACN_Encode_aux(val.s_a, bs, result);
        if result.Success then
            -- Encode s_b
            SNT_ACN_Encode_aux(val.s_b, bs, result);
            if result.Success then
                -- Encode s_c
                SNM_ACN_Encode_aux(val.s_c, bs, result);
                if result.Success then
                    -- Encode s_d
                    S8_ACN_Encode_aux(val.s_d, bs, result);
                    if result.Success then
                        -- Encode s_e
                        BNT_ACN_Encode_aux(val.s_e, bs, result);
                        if result.Success then
                            -- Encode s_f
                            SA_ACN_Encode_aux(val.s_f, bs, result);
                            if result.Success then
                                -- Encode s_g
                                OFx_ACN_Encode_aux(val.s_g, bs, result);
                                if result.Success then
                                    -- Encode s_h
                                    BV_ACN_Encode_aux(val.s_h, bs, result);
                                    if result.Success then
                                        -- Encode s_i
                                        BF9_ACN_Encode_aux(val.s_i, bs, result);
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Strs_ACN_Encode_aux;
procedure Strs_ACN_Encode(val : Strs; Stream : out Strs_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Strs_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Strs_ACN_Encode_aux directly).
    Stream := Strs_ACN_Stream'(Size_In_Bytes => Strs_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Strs_ACN_Encode_aux(val, Stream, result); 
end Strs_ACN_Encode; 

procedure Strs_ACN_Decode_aux(val:out Strs; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode s_a
    SI_ACN_Decode_aux(val.s_a, bs, result);
    if result.Success then
        -- Decode s_b
        SNT_ACN_Decode_aux(val.s_b, bs, result);
        if result.Success then
            -- Decode s_c
            SNM_ACN_Decode_aux(val.s_c, bs, result);
            if result.Success then
                -- Decode s_d
                S8_ACN_Decode_aux(val.s_d, bs, result);
                if result.Success then
                    -- Decode s_e
                    BNT_ACN_Decode_aux(val.s_e, bs, result);
                    if result.Success then
                        -- Decode s_f
                        SA_ACN_Decode_aux(val.s_f, bs, result);
                        if result.Success then
                            -- Decode s_g
                            OFx_ACN_Decode_aux(val.s_g, bs, result);
                            if result.Success then
                                -- Decode s_h
                                BV_ACN_Decode_aux(val.s_h, bs, result);
                                if result.Success then
                                    -- Decode s_i
                                    BF9_ACN_Decode_aux(val.s_i, bs, result);
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Strs_ACN_Decode_aux;
PROCEDURE Strs_ACN_Decode(val: out Strs; Stream : in out Strs_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Strs_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Strs_IsConstraintValid(val);
    end if;

end Strs_ACN_Decode; 



function ONT_Equal (val1, val2 :  ONT) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end ONT_Equal;

function ONT_IsConstraintValid(val : ONT) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 9));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ONT);
    return ret;
end ONT_IsConstraintValid;



procedure ONT_ACN_Encode_aux(val : ONT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := ONT_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        i1 := 1;
        while i1<= val.Length loop
            pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
            pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
            pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
            adaasn1rtl.encoding.BitStream_AppendByte(bs, val.Data(i1), FALSE);
            i1 := i1 + 1;
        end loop;
        adaasn1rtl.encoding.BitStream_AppendBits(bs, adaasn1rtl.OctetBuffer'(1=>16#FF#, 
                                                                             2=>16#0A#), 16);
    end if;
end ONT_ACN_Encode_aux;
procedure ONT_ACN_Encode(val : ONT; Stream : out ONT_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ONT_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ONT_ACN_Encode_aux directly).
    Stream := ONT_ACN_Stream'(Size_In_Bytes => ONT_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ONT_ACN_Encode_aux(val, Stream, result); 
end ONT_ACN_Encode; 

procedure ONT_ACN_Decode_aux(val:out ONT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    i1 := 1;
    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    while result.Success and then i1<= 9 and then not adaasn1rtl.encoding.BitStream_bitPatternMatches(bs,adaasn1rtl.OctetBuffer'(
                                                                                                                                 1=>16#FF#, 
                                                                                                                                 2=>16#0A#), 16)  loop
        pragma Loop_Invariant (i1 >=1 and i1<=9);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
        adaasn1rtl.encoding.BitStream_DecodeByte(bs, val.Data(i1), result.Success);
        if not result.Success then
            result.errorcode := ERR_ACN_DECODE_ONT; -- COVERAGE_IGNORE
        end if;
        i1 := i1 + 1;
    end loop;

    result.Success := result.Success and then i1 - 1 >= 1;if result.Success and i1 = 9+1  then
    	-- maximum number of elements was decoded. Makesure that the following bits is the termination pattern
    	result.Success := adaasn1rtl.encoding.BitStream_bitPatternMatches(bs,adaasn1rtl.OctetBuffer'(
                                                                                                  1=>16#FF#, 
                                                                                                  2=>16#0A#), 16);
    	if result.Success then
    		adaasn1rtl.encoding.BitStream_SkipBits(bs, 16);
    		val.Length := i1-1;
    	end if;
    	result := adaasn1rtl.ASN1_RESULT'(Success => result.Success, ErrorCode => ERR_ACN_DECODE_ONT);
    elsif result.Success and i1 < 9+1 then
    	val.Length := i1-1;
    	adaasn1rtl.encoding.BitStream_SkipBits(bs, 16);
    	result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    else
    	result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_ONT); --COVERAGE_IGNORE
    end if;
end ONT_ACN_Decode_aux;
PROCEDURE ONT_ACN_Decode(val: out ONT; Stream : in out ONT_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ONT_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ONT_IsConstraintValid(val);
    end if;

end ONT_ACN_Decode; 



function QNT_elem_Equal (val1, val2 :  QNT_elem) return Boolean
is

begin
	return val1 = val2;

end QNT_elem_Equal;

function QNT_Equal (val1, val2 :  QNT) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := QNT_elem_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end QNT_Equal;

function QNT_elem_IsConstraintValid(val : QNT_elem) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 200);
    ret.ErrorCode := (if ret.Success then 0 else ERR_QNT_ELM);
    return ret;
end QNT_elem_IsConstraintValid;

function QNT_IsConstraintValid(val : QNT) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := ((2 <= val.Length) AND (val.Length <= 9));
    ret.ErrorCode := (if ret.Success then 0 else ERR_QNT);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := QNT_elem_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end QNT_IsConstraintValid;




procedure QNT_ACN_Encode_aux(val : QNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := QNT_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        i1 := 1;
        while i1<= val.Length loop
            pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
            pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
            pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
            adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.Data(i1));
            i1 := i1 + 1;
        end loop;
        adaasn1rtl.encoding.BitStream_AppendBits(bs, adaasn1rtl.OctetBuffer'(1=>16#FF#, 
                                                                             2=>16#FE#), 16);
    end if;
end QNT_ACN_Encode_aux;
procedure QNT_ACN_Encode(val : QNT; Stream : out QNT_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to QNT_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke QNT_ACN_Encode_aux directly).
    Stream := QNT_ACN_Stream'(Size_In_Bytes => QNT_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    QNT_ACN_Encode_aux(val, Stream, result); 
end QNT_ACN_Encode; 

procedure QNT_ACN_Decode_aux(val:out QNT; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    i1 := 1;
    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    while result.Success and then i1<= 9 and then not adaasn1rtl.encoding.BitStream_bitPatternMatches(bs,adaasn1rtl.OctetBuffer'(
                                                                                                                                 1=>16#FF#, 
                                                                                                                                 2=>16#FE#), 16)  loop
        pragma Loop_Invariant (i1 >=1 and i1<=9);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 8*(i1-1));
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.Data(i1), 0, 200, result);
        result.ErrorCode := ERR_ACN_DECODE_QNT_ELM;

        i1 := i1 + 1;
    end loop;

    result.Success := result.Success and then i1 - 1 >= 2;if result.Success and i1 = 9+1  then
    	-- maximum number of elements was decoded. Makesure that the following bits is the termination pattern
    	result.Success := adaasn1rtl.encoding.BitStream_bitPatternMatches(bs,adaasn1rtl.OctetBuffer'(
                                                                                                  1=>16#FF#, 
                                                                                                  2=>16#FE#), 16);
    	if result.Success then
    		adaasn1rtl.encoding.BitStream_SkipBits(bs, 16);
    		val.Length := i1-1;
    	end if;
    	result := adaasn1rtl.ASN1_RESULT'(Success => result.Success, ErrorCode => ERR_ACN_DECODE_QNT);
    elsif result.Success and i1 < 9+1 then
    	val.Length := i1-1;
    	adaasn1rtl.encoding.BitStream_SkipBits(bs, 16);
    	result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    else
    	result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_QNT); --COVERAGE_IGNORE
    end if;
end QNT_ACN_Decode_aux;
PROCEDURE QNT_ACN_Decode(val: out QNT; Stream : in out QNT_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    QNT_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := QNT_IsConstraintValid(val);
    end if;

end QNT_ACN_Decode; 



function Algn_a_a_Equal (val1, val2 :  Algn_a_a) return Boolean
is

begin
	return val1 = val2;

end Algn_a_a_Equal;

function Algn_a_b_Equal (val1, val2 :  Algn_a_b) return Boolean
is

begin
	return val1 = val2;

end Algn_a_b_Equal;

function Algn_a_c_Equal (val1, val2 :  Algn_a_c) return Boolean
is

begin
	return val1 = val2;

end Algn_a_c_Equal;

function Algn_a_d_Equal (val1, val2 :  Algn_a_d) return Boolean
is

begin
	return val1 = val2;

end Algn_a_d_Equal;

function Algn_a_f_Equal (val1, val2 :  Algn_a_f) return Boolean
is

begin
	return val1 = val2;

end Algn_a_f_Equal;

function Algn_a_g_Equal (val1, val2 :  Algn_a_g) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end Algn_a_g_Equal;

function Algn_a_h_Equal (val1, val2 :  Algn_a_h) return Boolean
is

begin
	return val1 = val2;

end Algn_a_h_Equal;

function Algn_Equal (val1, val2 :  Algn) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Algn_a_a_Equal(val1.a_a, val2.a_a);

    if ret then
        ret := Algn_a_b_Equal(val1.a_b, val2.a_b);

        if ret then
            ret := Algn_a_c_Equal(val1.a_c, val2.a_c);

            if ret then
                ret := Algn_a_d_Equal(val1.a_d, val2.a_d);

                if ret then
                    ret := (val1.a_e = val2.a_e);

                    if ret then
                        ret := Algn_a_f_Equal(val1.a_f, val2.a_f);

                        if ret then
                            ret := Algn_a_g_Equal(val1.a_g, val2.a_g);

                            if ret then
                                ret := Algn_a_h_Equal(val1.a_h, val2.a_h);

                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Algn_Equal;

function Algn_a_a_IsConstraintValid(val : Algn_a_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_A);
    return ret;
end Algn_a_a_IsConstraintValid;

function Algn_a_b_IsConstraintValid(val : Algn_a_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 255);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_B);
    return ret;
end Algn_a_b_IsConstraintValid;

function Algn_a_c_IsConstraintValid(val : Algn_a_c) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_C);
    return ret;
end Algn_a_c_IsConstraintValid;

function Algn_a_d_IsConstraintValid(val : Algn_a_d) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 65535);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_D);
    return ret;
end Algn_a_d_IsConstraintValid;

function Algn_a_f_IsConstraintValid(val : Algn_a_f) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-9 <= val) AND (val <= 9));
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_F);
    return ret;
end Algn_a_f_IsConstraintValid;

function Algn_a_g_IsConstraintValid(val : Algn_a_g) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 5);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_G);
    return ret;
end Algn_a_g_IsConstraintValid;

function Algn_a_h_IsConstraintValid(val : Algn_a_h) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 1);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ALGN_A_H);
    return ret;
end Algn_a_h_IsConstraintValid;

function Algn_IsConstraintValid(val : Algn) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Algn_a_a_IsConstraintValid(val.a_a);
    if ret.Success then
        ret := Algn_a_b_IsConstraintValid(val.a_b);
        if ret.Success then
            ret := Algn_a_c_IsConstraintValid(val.a_c);
            if ret.Success then
                ret := Algn_a_d_IsConstraintValid(val.a_d);
                if ret.Success then
                    ret := Algn_a_f_IsConstraintValid(val.a_f);
                    if ret.Success then
                        ret := Algn_a_g_IsConstraintValid(val.a_g);
                        if ret.Success then
                            ret := Algn_a_h_IsConstraintValid(val.a_h);
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Algn_IsConstraintValid;










procedure Algn_ACN_Encode_aux(val : Algn; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Algn_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode a_a
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a_a, 0, 3);
        if result.Success then
            -- Encode a_b
            --align to next NextByte
            if (bs.Current_Bit_Pos mod 8) /= 0 then
                for padBit in 1 .. 8 - (bs.Current_Bit_Pos mod 8) loop
                    pragma Loop_Invariant (bs.Current_Bit_Pos = bs.Current_Bit_Pos'Loop_Entry + (padBit - 1));
                    adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
                end loop;
            end if;
            adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.a_b);
            if result.Success then
                -- Encode a_c
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a_c, 0, 2);
                if result.Success then
                    -- Encode a_d
                    --align to next NextWord
                    if (bs.Current_Bit_Pos mod 16) /= 0 then
                        for padBit in 1 .. 16 - (bs.Current_Bit_Pos mod 16) loop
                            pragma Loop_Invariant (bs.Current_Bit_Pos = bs.Current_Bit_Pos'Loop_Entry + (padBit - 1));
                            adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
                        end loop;
                    end if;
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, val.a_d);
                    if result.Success then
                        -- Encode a_e
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.a_e);
                        if result.Success then
                            -- Encode a_f
                            --align to next NextDWord
                            if (bs.Current_Bit_Pos mod 32) /= 0 then
                                for padBit in 1 .. 32 - (bs.Current_Bit_Pos mod 32) loop
                                    pragma Loop_Invariant (bs.Current_Bit_Pos = bs.Current_Bit_Pos'Loop_Entry + (padBit - 1));
                                    adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
                                end loop;
                            end if;
                            adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, val.a_f, 5);
                            if result.Success then
                                -- Encode a_g
                                --align to next NextWord
                                if (bs.Current_Bit_Pos mod 16) /= 0 then
                                    for padBit in 1 .. 16 - (bs.Current_Bit_Pos mod 16) loop
                                        pragma Loop_Invariant (bs.Current_Bit_Pos = bs.Current_Bit_Pos'Loop_Entry + (padBit - 1));
                                        adaasn1rtl.encoding.BitStream_AppendBit(bs, 0);
                                    end loop;
                                end if;
                                result.Success := val.a_g.Length >= 0 AND val.a_g.Length <= 5;
                                result.errorCode := ERR_ACN_ENCODE_ALGN_A_G;
                                if result.Success then
                                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.a_g.Length), 0, 3);
                                    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.a_g.Data, Integer(val.a_g.Length));
                                end if;
                                if result.Success then
                                    -- Encode a_h
                                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a_h, 0, 1);
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Algn_ACN_Encode_aux;
procedure Algn_ACN_Encode(val : Algn; Stream : out Algn_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Algn_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Algn_ACN_Encode_aux directly).
    Stream := Algn_ACN_Stream'(Size_In_Bytes => Algn_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Algn_ACN_Encode_aux(val, Stream, result); 
end Algn_ACN_Encode; 

procedure Algn_ACN_Decode_aux(val:out Algn; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    nStringLength:Integer;
begin
    -- Decode a_a
    result.ErrorCode := ERR_ACN_DECODE_ALGN_A_A;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a_a, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode a_b
        --align to next NextByte
        if (bs.Current_Bit_Pos mod 8) /= 0 then
            bs.Current_Bit_Pos := bs.Current_Bit_Pos + (8 - (bs.Current_Bit_Pos mod 8));
        end if;
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.a_b, 0, 255, result);
        result.ErrorCode := ERR_ACN_DECODE_ALGN_A_B;

        if result.Success then
            -- Decode a_c
            result.ErrorCode := ERR_ACN_DECODE_ALGN_A_C;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a_c, 0, 3, 2, result.Success);
            if result.Success then
                -- Decode a_d
                --align to next NextWord
                if (bs.Current_Bit_Pos mod 16) /= 0 then
                    bs.Current_Bit_Pos := bs.Current_Bit_Pos + (16 - (bs.Current_Bit_Pos mod 16));
                end if;
                adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, val.a_d, 0, 65535, result);
                result.ErrorCode := ERR_ACN_DECODE_ALGN_A_D;

                if result.Success then
                    -- Decode a_e
                    result.ErrorCode := ERR_ACN_DECODE_ALGN_A_E;
                    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.a_e, result.Success);
                    if result.Success then
                        -- Decode a_f
                        --align to next NextDWord
                        if (bs.Current_Bit_Pos mod 32) /= 0 then
                            bs.Current_Bit_Pos := bs.Current_Bit_Pos + (32 - (bs.Current_Bit_Pos mod 32));
                        end if;
                        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, val.a_f, -9, 9, 5, result);
                        result.ErrorCode := ERR_ACN_DECODE_ALGN_A_F;

                        if result.Success then
                            -- Decode a_g
                            --align to next NextWord
                            if (bs.Current_Bit_Pos mod 16) /= 0 then
                                bs.Current_Bit_Pos := bs.Current_Bit_Pos + (16 - (bs.Current_Bit_Pos mod 16));
                            end if;
                            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 5, 3, result.Success);
                            result.errorCode := ERR_ACN_DECODE_ALGN_A_G;
                            val.a_g.Length := nStringLength;
                            if result.Success then
                                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.a_g.Data, Integer(val.a_g.Length), result.success);
                            end if;
                            if result.Success then
                                -- Decode a_h
                                result.ErrorCode := ERR_ACN_DECODE_ALGN_A_H;
                                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a_h, 0, 1, 1, result.Success);
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Algn_ACN_Decode_aux;
PROCEDURE Algn_ACN_Decode(val: out Algn; Stream : in out Algn_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Algn_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Algn_IsConstraintValid(val);
    end if;

end Algn_ACN_Decode; 



function ChE_Equal (val1, val2 :  ChE) return Boolean
is

begin
	return val1 = val2;

end ChE_Equal;

function ChE_IsConstraintValid(val : ChE) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = al_a)) OR ((val = al_b)))) OR ((val = al_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_CHE);
    return ret;
end ChE_IsConstraintValid;



procedure ChE_ACN_Encode_aux(val : ChE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := ChE_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when al_a    => intVal_val := 0;
            when al_b    => intVal_val := 1;
            when al_c    => intVal_val := 2;
        end case;
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, intVal_val, 0, 2);
    end if;
end ChE_ACN_Encode_aux;
procedure ChE_ACN_Encode(val : ChE; Stream : out ChE_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ChE_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ChE_ACN_Encode_aux directly).
    Stream := ChE_ACN_Stream'(Size_In_Bytes => ChE_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ChE_ACN_Encode_aux(val, Stream, result); 
end ChE_ACN_Encode; 

procedure ChE_ACN_Decode_aux(val:out ChE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result.ErrorCode := ERR_ACN_DECODE_CHE;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, intVal_val, 0, 2, 2, result.Success);
    if result.Success then
        case intVal_val is
            when 0 => val := al_a;
            when 1 => val := al_b;
            when 2 => val := al_c;
        when others =>																				-- COVERAGE_IGNORE
            val := al_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_CHE);	-- COVERAGE_IGNORE
        end case;
    else
        val := al_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_CHE;																-- COVERAGE_IGNORE
    end if;
end ChE_ACN_Decode_aux;
PROCEDURE ChE_ACN_Decode(val: out ChE; Stream : in out ChE_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ChE_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ChE_IsConstraintValid(val);
    end if;

end ChE_ACN_Decode; 



function ChEV_Equal (val1, val2 :  ChEV) return Boolean
is

begin
	return val1 = val2;

end ChEV_Equal;

function ChEV_IsConstraintValid(val : ChEV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = al_a)) OR ((val = al_b)))) OR ((val = al_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_CHEV);
    return ret;
end ChEV_IsConstraintValid;



procedure ChEV_ACN_Encode_aux(val : ChEV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := ChEV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when al_a    => intVal_val := 5;
            when al_b    => intVal_val := 6;
            when al_c    => intVal_val := 200;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, intVal_val);
    end if;
end ChEV_ACN_Encode_aux;
procedure ChEV_ACN_Encode(val : ChEV; Stream : out ChEV_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to ChEV_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke ChEV_ACN_Encode_aux directly).
    Stream := ChEV_ACN_Stream'(Size_In_Bytes => ChEV_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    ChEV_ACN_Encode_aux(val, Stream, result); 
end ChEV_ACN_Encode; 

procedure ChEV_ACN_Decode_aux(val:out ChEV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, intVal_val, 5, 200, result);
    result.ErrorCode := ERR_ACN_DECODE_CHEV;

    if result.Success then
        case intVal_val is
            when 5 => val := al_a;
            when 6 => val := al_b;
            when 200 => val := al_c;
        when others =>																				-- COVERAGE_IGNORE
            val := al_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_CHEV);	-- COVERAGE_IGNORE
        end case;
    else
        val := al_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_CHEV;																-- COVERAGE_IGNORE
    end if;
end ChEV_ACN_Decode_aux;
PROCEDURE ChEV_ACN_Decode(val: out ChEV; Stream : in out ChEV_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    ChEV_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := ChEV_IsConstraintValid(val);
    end if;

end ChEV_ACN_Decode; 



function DChC_Equal (val1, val2 :  DChC) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when al_a_PRESENT =>
                ret := (val1.al_a = val2.al_a);
            when al_b_PRESENT =>
                ret := OV_Equal(val1.al_b, val2.al_b);
            when al_c_PRESENT =>
                ret := ASo_Equal(val1.al_c, val2.al_c);
        end case;
    end if;
	return ret;

end DChC_Equal;

function DChC_IsConstraintValid(val : DChC) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN al_a_PRESENT =>
            ret := P8_IsConstraintValid(val.al_a);
        WHEN al_b_PRESENT =>
            ret := OV_IsConstraintValid(val.al_b);
        WHEN al_c_PRESENT =>
            ret := ASo_IsConstraintValid(val.al_c);
    end case;
    return ret;
end DChC_IsConstraintValid;





function DCh_g_m_Equal (val1, val2 :  DCh_g_m) return Boolean
is

begin
	return val1 = val2;

end DCh_g_m_Equal;

function DCh_Equal (val1, val2 :  DCh) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DCh_g_m_Equal(val1.g_m, val2.g_m);

    if ret then
        ret := DChC_Equal(val1.g_c, val2.g_c);

    end if;
	return ret;

end DCh_Equal;

function DCh_g_m_IsConstraintValid(val : DCh_g_m) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCH_G_M);
    return ret;
end DCh_g_m_IsConstraintValid;

function DCh_IsConstraintValid(val : DCh) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DCh_g_m_IsConstraintValid(val.g_m);
    if ret.Success then
        ret := DChC_IsConstraintValid(val.g_c);
    end if;
    return ret;
end DCh_IsConstraintValid;




procedure DCh_ACN_Encode_aux(val : DCh; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCh_which:ChEV;
    DCh_which_is_initialized:Boolean:=False;
    intVal_DCh_which : adaasn1rtl.Asn1UInt;
begin
    result := DCh_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val.g_c.kind is
            when al_a_PRESENT =>
                DCh_which_is_initialized := True;
            	DCh_which := al_a;
            when al_b_PRESENT =>
                DCh_which_is_initialized := True;
            	DCh_which := al_b;
            when al_c_PRESENT =>
                DCh_which_is_initialized := True;
            	DCh_which := al_c;
        end case;
        if result.Success then
            --Encode DCh_which
            if DCh_which_is_initialized then
                result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                case DCh_which is
                    when al_a    => intVal_DCh_which := 5;
                    when al_b    => intVal_DCh_which := 6;
                    when al_c    => intVal_DCh_which := 200;
                end case;
                adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, intVal_DCh_which);
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCH_WHICH_UNINITIALIZED); --COVERAGE_IGNORE
            end if;
        end if;
        if result.Success then
            -- Encode g_m
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.g_m, 0, 5);
            if result.Success then
                -- Encode g_c
                case val.g_c.kind is
                    when al_a_PRESENT =>
                    	P8_ACN_Encode_aux(val.g_c.al_a, bs, result);
                    when al_b_PRESENT =>
                    	OV_ACN_Encode_aux(val.g_c.al_b, bs, result);
                    when al_c_PRESENT =>
                    	ASo_ACN_Encode_aux(val.g_c.al_c, bs, result);
                end case;
            end if;
        end if;
    end if;
end DCh_ACN_Encode_aux;
procedure DCh_ACN_Encode(val : DCh; Stream : out DCh_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DCh_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DCh_ACN_Encode_aux directly).
    Stream := DCh_ACN_Stream'(Size_In_Bytes => DCh_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DCh_ACN_Encode_aux(val, Stream, result); 
end DCh_ACN_Encode; 

procedure DCh_ACN_Decode_aux(val:out DCh; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCh_which:ChEV;
    intVal_DCh_which : adaasn1rtl.Asn1UInt;
begin
    -- Decode DCh_which
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, intVal_DCh_which, 5, 200, result);
    result.ErrorCode := ERR_ACN_DECODE_DCH_WHICH;

    if result.Success then
        case intVal_DCh_which is
            when 5 => DCh_which := al_a;
            when 6 => DCh_which := al_b;
            when 200 => DCh_which := al_c;
        when others =>																				-- COVERAGE_IGNORE
            DCh_which := al_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_DCH_WHICH);	-- COVERAGE_IGNORE
        end case;
    else
        DCh_which := al_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_DCH_WHICH;																-- COVERAGE_IGNORE
    end if;
    if result.Success then
        -- Decode g_m
        result.ErrorCode := ERR_ACN_DECODE_DCH_G_M;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.g_m, 0, 31, 5, result.Success);
        if result.Success then
            -- Decode g_c
            case DCh_which is
                when al_a =>
                  val.g_c := DChC'(kind => al_a_PRESENT, al_a => 0);
                  P8_ACN_Decode_aux(val.g_c.al_a, bs, result);

                when al_b =>
                  val.g_c := DChC'(kind => al_b_PRESENT, al_b => (Length => 0, Data => (others => 0)));
                  OV_ACN_Decode_aux(val.g_c.al_b, bs, result);

                when al_c =>
                  val.g_c := DChC'(kind => al_c_PRESENT, al_c => ASo_Init);
                  ASo_ACN_Decode_aux(val.g_c.al_c, bs, result);

            end case;
        end if;
    end if;
end DCh_ACN_Decode_aux;
PROCEDURE DCh_ACN_Decode(val: out DCh; Stream : in out DCh_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DCh_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DCh_IsConstraintValid(val);
    end if;

end DCh_ACN_Decode; 



function PHdr_h_ver_Equal (val1, val2 :  PHdr_h_ver) return Boolean
is

begin
	return val1 = val2;

end PHdr_h_ver_Equal;

function PHdr_h_end_Equal (val1, val2 :  PHdr_h_end) return Boolean
is

begin
	return val1 = val2;

end PHdr_h_end_Equal;

function PHdr_Equal (val1, val2 :  PHdr) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := PHdr_h_ver_Equal(val1.h_ver, val2.h_ver);

    if ret then
        ret := PHdr_h_end_Equal(val1.h_end, val2.h_end);

    end if;
	return ret;

end PHdr_Equal;

function PHdr_h_ver_IsConstraintValid(val : PHdr_h_ver) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PHDR_H_VER);
    return ret;
end PHdr_h_ver_IsConstraintValid;

function PHdr_h_end_IsConstraintValid(val : PHdr_h_end) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PHDR_H_END);
    return ret;
end PHdr_h_end_IsConstraintValid;

function PHdr_IsConstraintValid(val : PHdr) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := PHdr_h_ver_IsConstraintValid(val.h_ver);
    if ret.Success then
        ret := PHdr_h_end_IsConstraintValid(val.h_end);
    end if;
    return ret;
end PHdr_IsConstraintValid;





procedure PHdr_ACN_Encode_aux(val : PHdr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := PHdr_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h_ver
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h_ver, 0, 3);
        if result.Success then
            -- Encode h_end
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h_end, 0, 2);
        end if;
    end if;
end PHdr_ACN_Encode_aux;
procedure PHdr_ACN_Encode(val : PHdr; Stream : out PHdr_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to PHdr_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke PHdr_ACN_Encode_aux directly).
    Stream := PHdr_ACN_Stream'(Size_In_Bytes => PHdr_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    PHdr_ACN_Encode_aux(val, Stream, result); 
end PHdr_ACN_Encode; 

procedure PHdr_ACN_Decode_aux(val:out PHdr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode h_ver
    result.ErrorCode := ERR_ACN_DECODE_PHDR_H_VER;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h_ver, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode h_end
        result.ErrorCode := ERR_ACN_DECODE_PHDR_H_END;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h_end, 0, 3, 2, result.Success);
    end if;
end PHdr_ACN_Decode_aux;
PROCEDURE PHdr_ACN_Decode(val: out PHdr; Stream : in out PHdr_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    PHdr_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := PHdr_IsConstraintValid(val);
    end if;

end PHdr_ACN_Decode; 



function Pkt_Equal (val1, val2 :  Pkt) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := PHdr_Equal(val1.hdr, val2.hdr);

    if ret then
        ret := Body_1_Equal(val1.bdy, val2.bdy);

        if ret then
            ret := (val1.trail = val2.trail);

        end if;
    end if;
	return ret;

end Pkt_Equal;

function Pkt_IsConstraintValid(val : Pkt) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := PHdr_IsConstraintValid(val.hdr);
    if ret.Success then
        ret := Body_1_IsConstraintValid(val.bdy);
        if ret.Success then
            ret := P8_IsConstraintValid(val.trail);
        end if;
    end if;
    return ret;
end Pkt_IsConstraintValid;



procedure Pkt_ACN_Encode_aux(val : Pkt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    Pkt_hdr_plen1:adaasn1rtl.Asn1UInt;
    Pkt_hdr_plen1_is_initialized:Boolean:=False;
    Pkt_hdr_pfl1:adaasn1rtl.Asn1Boolean;
    Pkt_hdr_pfl1_is_initialized:Boolean:=False;
begin
    result := Pkt_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode hdr
        -- Encode h_ver
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.hdr.h_ver, 0, 3);
        if result.Success then
            Pkt_hdr_plen1_is_initialized := True;
            Pkt_hdr_plen1 := adaasn1rtl.Asn1UInt(val.bdy.b_o.Length);

            if result.Success then
                --Encode Pkt_hdr_plen1
                if Pkt_hdr_plen1_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, Pkt_hdr_plen1);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_PKT_HDR_PLEN1_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                Pkt_hdr_pfl1_is_initialized := True;
                Pkt_hdr_pfl1 := (val.bdy.exist.b_p = 1);
                if result.Success then
                    --Encode Pkt_hdr_pfl1
                    if Pkt_hdr_pfl1_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, Pkt_hdr_pfl1);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_PKT_HDR_PFL1_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode h_end
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.hdr.h_end, 0, 2);
                end if;
            end if;
        end if;
        if result.Success then
            -- Encode bdy
            -- Encode b_m
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.bdy.b_m, 0, 3);
            if result.Success then
                -- Encode b_o
                adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.bdy.b_o.Data, Integer(val.bdy.b_o.Length));
                if result.Success then
                    -- Encode b_p
                    if val.bdy.Exist.b_p = 1 then
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.bdy.b_p);
                    end if;
                end if;
            end if;
            if result.Success then
                -- Encode trail
                P8_ACN_Encode_aux(val.trail, bs, result);
            end if;
        end if;
    end if;
end Pkt_ACN_Encode_aux;
procedure Pkt_ACN_Encode(val : Pkt; Stream : out Pkt_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Pkt_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Pkt_ACN_Encode_aux directly).
    Stream := Pkt_ACN_Stream'(Size_In_Bytes => Pkt_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Pkt_ACN_Encode_aux(val, Stream, result); 
end Pkt_ACN_Encode; 

procedure Pkt_ACN_Decode_aux(val:out Pkt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    Pkt_hdr_plen1:adaasn1rtl.Asn1UInt;
    Pkt_hdr_pfl1:adaasn1rtl.Asn1Boolean;
begin
    -- Decode hdr
    -- Decode h_ver
    result.ErrorCode := ERR_ACN_DECODE_PKT_HDR_H_VER;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.hdr.h_ver, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode Pkt_hdr_plen1
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, Pkt_hdr_plen1, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_PKT_HDR_PLEN1;

        if result.Success then
            -- Decode Pkt_hdr_pfl1
            result.ErrorCode := ERR_ACN_DECODE_PKT_HDR_PFL1;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, Pkt_hdr_pfl1, result.Success);
            if result.Success then
                -- Decode h_end
                result.ErrorCode := ERR_ACN_DECODE_PKT_HDR_H_END;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.hdr.h_end, 0, 3, 2, result.Success);
            end if;
        end if;
    end if;
    if result.Success then
        -- Decode bdy
        -- Decode b_m
        result.ErrorCode := ERR_ACN_DECODE_PKT_BDY_B_M;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.bdy.b_m, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode b_o
            result := adaasn1rtl.ASN1_RESULT'(Success => Pkt_hdr_plen1<=20, ErrorCode => ERR_ACN_DECODE_PKT_BDY_B_O);
            if result.Success then
                val.bdy.b_o.Length := Integer(Pkt_hdr_plen1);
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.bdy.b_o.Data, Integer(val.bdy.b_o.Length), result.success);
            end if;
            if result.Success then
                val.bdy.Exist.b_p := (if Pkt_hdr_pfl1 then 1 else 0);
                result.Success := true;
                -- Decode b_p
                if val.bdy.Exist.b_p = 1 then
                	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.bdy.b_p, 0, 255, result);
                	result.ErrorCode := ERR_ACN_DECODE_PKT_BDY_B_P;

                end if;
            end if;
        end if;
        if result.Success then
            -- Decode trail
            P8_ACN_Decode_aux(val.trail, bs, result);
        end if;
    end if;
end Pkt_ACN_Decode_aux;
PROCEDURE Pkt_ACN_Decode(val: out Pkt; Stream : in out Pkt_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Pkt_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Pkt_IsConstraintValid(val);
    end if;

end Pkt_ACN_Decode; 



function AMix_Equal (val1, val2 :  AMix) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.Exist.x_a = val2.Exist.x_a;
    if ret and then val1.Exist.x_a = 1 then
        ret := DSz_Equal(val1.x_a, val2.x_a);
    end if;

    if ret then
        ret := DPr_Equal(val1.x_b, val2.x_b);

        if ret then
            ret := DCh_Equal(val1.x_c, val2.x_c);

            if ret then
                ret := Pkt_Equal(val1.x_d, val2.x_d);

                if ret then
                    ret := AChc_Equal(val1.x_e, val2.x_e);

                    if ret then
                        ret := ASoE_Equal(val1.x_f, val2.x_f);

                        if ret then
                            ret := Algn_Equal(val1.x_g, val2.x_g);

                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end AMix_Equal;

function AMix_IsConstraintValid(val : AMix) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    if val.Exist.x_a = 1 then
        ret := DSz_IsConstraintValid(val.x_a);
    end if;
    if ret.Success then
        ret := DPr_IsConstraintValid(val.x_b);
        if ret.Success then
            ret := DCh_IsConstraintValid(val.x_c);
            if ret.Success then
                ret := Pkt_IsConstraintValid(val.x_d);
                if ret.Success then
                    ret := AChc_IsConstraintValid(val.x_e);
                    if ret.Success then
                        ret := ASoE_IsConstraintValid(val.x_f);
                        if ret.Success then
                            ret := Algn_IsConstraintValid(val.x_g);
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end AMix_IsConstraintValid;



procedure AMix_ACN_Encode_aux(val : AMix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := AMix_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.x_a);
        if result.Success then
            -- Encode x_a
            if val.Exist.x_a = 1 then
            	DSz_ACN_Encode_aux(val.x_a, bs, result);
            end if;
            if result.Success then
                -- Encode x_b
                DPr_ACN_Encode_aux(val.x_b, bs, result);
                if result.Success then
                    -- Encode x_c
                    DCh_ACN_Encode_aux(val.x_c, bs, result);
                    if result.Success then
                        -- Encode x_d
                        Pkt_ACN_Encode_aux(val.x_d, bs, result);
                        if result.Success then
                            -- Encode x_e
                            AChc_ACN_Encode_aux(val.x_e, bs, result);
                            if result.Success then
                                -- Encode x_f
                                ASoE_ACN_Encode_aux(val.x_f, bs, result);
                                if result.Success then
                                    -- Encode x_g
                                    Algn_ACN_Encode_aux(val.x_g, bs, result);
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end AMix_ACN_Encode_aux;
procedure AMix_ACN_Encode(val : AMix; Stream : out AMix_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to AMix_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke AMix_ACN_Encode_aux directly).
    Stream := AMix_ACN_Stream'(Size_In_Bytes => AMix_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    AMix_ACN_Encode_aux(val, Stream, result); 
end AMix_ACN_Encode; 

procedure AMix_ACN_Decode_aux(val:out AMix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    x_a_exist:adaasn1rtl.BIT;
begin
    result.ErrorCode := ERR_ACN_DECODE_AMIX;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, x_a_exist, result.Success);
    val.Exist.x_a := x_a_exist;
    if result.Success then
        -- Decode x_a
        if val.Exist.x_a = 1 then
        	DSz_ACN_Decode_aux(val.x_a, bs, result);
        end if;
        if result.Success then
            -- Decode x_b
            DPr_ACN_Decode_aux(val.x_b, bs, result);
            if result.Success then
                -- Decode x_c
                DCh_ACN_Decode_aux(val.x_c, bs, result);
                if result.Success then
                    -- Decode x_d
                    Pkt_ACN_Decode_aux(val.x_d, bs, result);
                    if result.Success then
                        -- Decode x_e
                        AChc_ACN_Decode_aux(val.x_e, bs, result);
                        if result.Success then
                            -- Decode x_f
                            ASoE_ACN_Decode_aux(val.x_f, bs, result);
                            if result.Success then
                                -- Decode x_g
                                Algn_ACN_Decode_aux(val.x_g, bs, result);
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end AMix_ACN_Decode_aux;
PROCEDURE AMix_ACN_Decode(val: out AMix; Stream : in out AMix_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    AMix_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := AMix_IsConstraintValid(val);
    end if;

end AMix_ACN_Decode; 


pragma Warnings (On, "condition can only be False if invalid values present");
pragma Warnings (On, "condition can only be True if invalid values present");

end ACM;