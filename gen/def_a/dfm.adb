pragma Style_Checks (Off);
--  Code automatically generated by asn1scc tool

pragma Warnings (Off, """String"" is already use-visible inside package ""Standard""");

pragma Warnings (Off, "redundant with clause in body");

pragma Warnings (Off, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (Off, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (Off, "unit ""adaasn1rtl.encoding.uper"" is not referenced");
with adaasn1rtl.encoding.uper;
pragma Warnings (On, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (On, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (On, "unit ""adaasn1rtl.encoding.uper"" is not referenced");


pragma Warnings (Off, "no entities of ""adaasn1rtl.encoding.acn"" are referenced");
pragma Warnings (Off, "use clause for package ""adaasn1rtl.encoding.acn"" has no effect");
pragma Warnings (Off, "unit ""adaasn1rtl.encoding.acn"" is not referenced");
with adaasn1rtl.encoding.acn;
pragma Warnings (On, "no entities of ""adaasn1rtl.encoding.acn"" are referenced");
pragma Warnings (On, "use clause for package ""adaasn1rtl.encoding.acn"" has no effect");
pragma Warnings (On, "unit ""adaasn1rtl.encoding.acn"" is not referenced");

pragma Warnings (On, "redundant with clause in body");

package body DFM with SPARK_Mode is


pragma Warnings (Off, "condition can only be False if invalid values present");
pragma Warnings (Off, "condition can only be True if invalid values present");


function DHdr_v_Equal (val1, val2 :  DHdr_v) return Boolean
is

begin
	return val1 = val2;

end DHdr_v_Equal;

function DHdr_e_Equal (val1, val2 :  DHdr_e) return Boolean
is

begin
	return val1 = val2;

end DHdr_e_Equal;

function DHdr_Equal (val1, val2 :  DHdr) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_v_Equal(val1.v, val2.v);

    if ret then
        ret := DHdr_e_Equal(val1.e, val2.e);

    end if;
	return ret;

end DHdr_Equal;

function DHdr_v_IsConstraintValid(val : DHdr_v) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DHDR_V);
    return ret;
end DHdr_v_IsConstraintValid;

function DHdr_e_IsConstraintValid(val : DHdr_e) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DHDR_E);
    return ret;
end DHdr_e_IsConstraintValid;

function DHdr_IsConstraintValid(val : DHdr) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_v_IsConstraintValid(val.v);
    if ret.Success then
        ret := DHdr_e_IsConstraintValid(val.e);
    end if;
    return ret;
end DHdr_IsConstraintValid;





procedure DHdr_ACN_Encode_aux(val : DHdr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := DHdr_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.v, 0, 3);
        if result.Success then
            -- Encode e
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.e, 0, 2);
        end if;
    end if;
end DHdr_ACN_Encode_aux;
procedure DHdr_ACN_Encode(val : DHdr; Stream : out DHdr_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DHdr_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DHdr_ACN_Encode_aux directly).
    Stream := DHdr_ACN_Stream'(Size_In_Bytes => DHdr_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DHdr_ACN_Encode_aux(val, Stream, result); 
end DHdr_ACN_Encode; 

procedure DHdr_ACN_Decode_aux(val:out DHdr; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DHDR_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode e
        result.ErrorCode := ERR_ACN_DECODE_DHDR_E;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.e, 0, 3, 2, result.Success);
    end if;
end DHdr_ACN_Decode_aux;
PROCEDURE DHdr_ACN_Decode(val: out DHdr; Stream : in out DHdr_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DHdr_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DHdr_IsConstraintValid(val);
    end if;

end DHdr_ACN_Decode; 



function P5_Equal (val1, val2 :  P5) return Boolean
is

begin
	return val1 = val2;

end P5_Equal;

function P5_IsConstraintValid(val : P5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P5);
    return ret;
end P5_IsConstraintValid;



procedure P5_ACN_Encode_aux(val : P5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, val, 5);
    end if;
end P5_ACN_Encode_aux;
procedure P5_ACN_Encode(val : P5; Stream : out P5_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P5_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P5_ACN_Encode_aux directly).
    Stream := P5_ACN_Stream'(Size_In_Bytes => P5_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P5_ACN_Encode_aux(val, Stream, result); 
end P5_ACN_Encode; 

procedure P5_ACN_Decode_aux(val:out P5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, val, 0, 31, 5, result);
    result.ErrorCode := ERR_ACN_DECODE_P5;

end P5_ACN_Decode_aux;
PROCEDURE P5_ACN_Decode(val: out P5; Stream : in out P5_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P5_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P5_IsConstraintValid(val);
    end if;

end P5_ACN_Decode; 



function QB_s_Equal (val1, val2 :  QB_s) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end QB_s_Equal;

function QB_y_Equal (val1, val2 :  QB_y) return Boolean
is

begin
	return val1 = val2;

end QB_y_Equal;

function QB_Equal (val1, val2 :  QB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.x = val2.x);

    if ret then
        ret := QB_s_Equal(val1.s, val2.s);

        if ret then
            ret := QB_y_Equal(val1.y, val2.y);

        end if;
    end if;
	return ret;

end QB_Equal;

function QB_s_IsConstraintValid(val : QB_s) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 9);
    ret.ErrorCode := (if ret.Success then 0 else ERR_QB_S);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := P5_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end QB_s_IsConstraintValid;

function QB_y_IsConstraintValid(val : QB_y) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_QB_Y);
    return ret;
end QB_y_IsConstraintValid;

function QB_IsConstraintValid(val : QB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := QB_s_IsConstraintValid(val.s);
    if ret.Success then
        ret := QB_y_IsConstraintValid(val.y);
    end if;
    return ret;
end QB_IsConstraintValid;







function DW5_t_Equal (val1, val2 :  DW5_t) return Boolean
is

begin
	return val1 = val2;

end DW5_t_Equal;

function DW5_Equal (val1, val2 :  DW5) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := QB_Equal(val1.b, val2.b);

            if ret then
                ret := DW5_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW5_Equal;

function DW5_t_IsConstraintValid(val : DW5_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW5_T);
    return ret;
end DW5_t_IsConstraintValid;

function DW5_IsConstraintValid(val : DW5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := QB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW5_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW5_IsConstraintValid;




procedure DW5_ACN_Encode_aux(val : DW5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW5_h_n:adaasn1rtl.Asn1UInt;
    DW5_h_n_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DW5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW5_h_n_is_initialized := True;
            DW5_h_n := adaasn1rtl.Asn1UInt(val.b.s.Length);

            if result.Success then
                --Encode DW5_h_n
                if DW5_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DW5_h_n, 5);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW5_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    i1 := 1;
                    while i1<= val.b.s.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Encode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW5_ACN_Encode_aux;
procedure DW5_ACN_Encode(val : DW5; Stream : out DW5_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW5_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW5_ACN_Encode_aux directly).
    Stream := DW5_ACN_Stream'(Size_In_Bytes => DW5_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW5_ACN_Encode_aux(val, Stream, result); 
end DW5_ACN_Encode; 

procedure DW5_ACN_Decode_aux(val:out DW5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW5_h_n:adaasn1rtl.Asn1UInt;
    i1:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW5_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW5_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DW5_h_n, 0, 31, 5, result);
        result.ErrorCode := ERR_ACN_DECODE_DW5_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW5_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW5_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW5_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => DW5_h_n<=9, ErrorCode => ERR_ACN_DECODE_DW5_B_S);
                if result.Success then
                    val.b.s.Length := Integer(DW5_h_n);
                    i1 := 1;
                    while i1<= val.b.s.Length AND result.Success loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Decode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW5_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW5_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW5_ACN_Decode_aux;
PROCEDURE DW5_ACN_Decode(val: out DW5; Stream : in out DW5_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW5_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW5_IsConstraintValid(val);
    end if;

end DW5_ACN_Decode; 



function DW16_t_Equal (val1, val2 :  DW16_t) return Boolean
is

begin
	return val1 = val2;

end DW16_t_Equal;

function DW16_Equal (val1, val2 :  DW16) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := QB_Equal(val1.b, val2.b);

            if ret then
                ret := DW16_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW16_Equal;

function DW16_t_IsConstraintValid(val : DW16_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW16_T);
    return ret;
end DW16_t_IsConstraintValid;

function DW16_IsConstraintValid(val : DW16) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := QB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW16_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW16_IsConstraintValid;




procedure DW16_ACN_Encode_aux(val : DW16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW16_h_n:adaasn1rtl.Asn1UInt;
    DW16_h_n_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DW16_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW16_h_n_is_initialized := True;
            DW16_h_n := adaasn1rtl.Asn1UInt(val.b.s.Length);

            if result.Success then
                --Encode DW16_h_n
                if DW16_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, DW16_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW16_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    i1 := 1;
                    while i1<= val.b.s.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Encode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW16_ACN_Encode_aux;
procedure DW16_ACN_Encode(val : DW16; Stream : out DW16_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW16_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW16_ACN_Encode_aux directly).
    Stream := DW16_ACN_Stream'(Size_In_Bytes => DW16_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW16_ACN_Encode_aux(val, Stream, result); 
end DW16_ACN_Encode; 

procedure DW16_ACN_Decode_aux(val:out DW16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW16_h_n:adaasn1rtl.Asn1UInt;
    i1:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW16_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW16_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, DW16_h_n, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_DW16_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW16_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW16_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW16_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => DW16_h_n<=9, ErrorCode => ERR_ACN_DECODE_DW16_B_S);
                if result.Success then
                    val.b.s.Length := Integer(DW16_h_n);
                    i1 := 1;
                    while i1<= val.b.s.Length AND result.Success loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Decode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW16_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW16_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW16_ACN_Decode_aux;
PROCEDURE DW16_ACN_Decode(val: out DW16; Stream : in out DW16_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW16_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW16_IsConstraintValid(val);
    end if;

end DW16_ACN_Decode; 



function DW64_t_Equal (val1, val2 :  DW64_t) return Boolean
is

begin
	return val1 = val2;

end DW64_t_Equal;

function DW64_Equal (val1, val2 :  DW64) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := QB_Equal(val1.b, val2.b);

            if ret then
                ret := DW64_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW64_Equal;

function DW64_t_IsConstraintValid(val : DW64_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW64_T);
    return ret;
end DW64_t_IsConstraintValid;

function DW64_IsConstraintValid(val : DW64) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := QB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW64_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW64_IsConstraintValid;




procedure DW64_ACN_Encode_aux(val : DW64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW64_h_n:adaasn1rtl.Asn1UInt;
    DW64_h_n_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DW64_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW64_h_n_is_initialized := True;
            DW64_h_n := adaasn1rtl.Asn1UInt(val.b.s.Length);

            if result.Success then
                --Encode DW64_h_n
                if DW64_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(bs, DW64_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW64_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    i1 := 1;
                    while i1<= val.b.s.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Encode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW64_ACN_Encode_aux;
procedure DW64_ACN_Encode(val : DW64; Stream : out DW64_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW64_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW64_ACN_Encode_aux directly).
    Stream := DW64_ACN_Stream'(Size_In_Bytes => DW64_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW64_ACN_Encode_aux(val, Stream, result); 
end DW64_ACN_Encode; 

procedure DW64_ACN_Decode_aux(val:out DW64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW64_h_n:adaasn1rtl.Asn1UInt;
    i1:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW64_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW64_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(bs, DW64_h_n, 0, 18446744073709551615, result);
        result.ErrorCode := ERR_ACN_DECODE_DW64_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW64_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW64_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW64_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => DW64_h_n<=9, ErrorCode => ERR_ACN_DECODE_DW64_B_S);
                if result.Success then
                    val.b.s.Length := Integer(DW64_h_n);
                    i1 := 1;
                    while i1<= val.b.s.Length AND result.Success loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Decode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW64_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW64_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW64_ACN_Decode_aux;
PROCEDURE DW64_ACN_Decode(val: out DW64; Stream : in out DW64_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW64_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW64_IsConstraintValid(val);
    end if;

end DW64_ACN_Decode; 



function DI11_t_Equal (val1, val2 :  DI11_t) return Boolean
is

begin
	return val1 = val2;

end DI11_t_Equal;

function DI11_Equal (val1, val2 :  DI11) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := QB_Equal(val1.b, val2.b);

            if ret then
                ret := DI11_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DI11_Equal;

function DI11_t_IsConstraintValid(val : DI11_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DI11_T);
    return ret;
end DI11_t_IsConstraintValid;

function DI11_IsConstraintValid(val : DI11) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := QB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DI11_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DI11_IsConstraintValid;




procedure DI11_ACN_Encode_aux(val : DI11; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI11_h_n:adaasn1rtl.Asn1Int;
    DI11_h_n_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DI11_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DI11_h_n_is_initialized := True;
            DI11_h_n := adaasn1rtl.Asn1Int(val.b.s.Length);

            if result.Success then
                --Encode DI11_h_n
                if DI11_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, DI11_h_n, 11);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DI11_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    i1 := 1;
                    while i1<= val.b.s.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Encode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DI11_ACN_Encode_aux;
procedure DI11_ACN_Encode(val : DI11; Stream : out DI11_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DI11_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DI11_ACN_Encode_aux directly).
    Stream := DI11_ACN_Stream'(Size_In_Bytes => DI11_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DI11_ACN_Encode_aux(val, Stream, result); 
end DI11_ACN_Encode; 

procedure DI11_ACN_Decode_aux(val:out DI11; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI11_h_n:adaasn1rtl.Asn1Int;
    i1:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DI11_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DI11_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, DI11_h_n, -1024, 1023, 11, result);
        result.ErrorCode := ERR_ACN_DECODE_DI11_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DI11_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DI11_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DI11_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DI11_h_n AND DI11_h_n<=9, ErrorCode => ERR_ACN_DECODE_DI11_B_S);
                if result.Success then
                    val.b.s.Length := Integer(DI11_h_n);
                    i1 := 1;
                    while i1<= val.b.s.Length AND result.Success loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                        P5_ACN_Decode_aux(val.b.s.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DI11_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DI11_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DI11_ACN_Decode_aux;
PROCEDURE DI11_ACN_Decode(val: out DI11; Stream : in out DI11_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DI11_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DI11_IsConstraintValid(val);
    end if;

end DI11_ACN_Decode; 



function CQ_a_Equal (val1, val2 :  CQ_a) return Boolean
is

begin
	return val1 = val2;

end CQ_a_Equal;

function CQ_Equal (val1, val2 :  CQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CQ_a_Equal(val1.a, val2.a);

    if ret then
        ret := (val1.b = val2.b);

        if ret then
            ret := val1.Exist.c = val2.Exist.c;
            if ret and then val1.Exist.c = 1 then
                ret := (val1.c = val2.c);
            end if;

        end if;
    end if;
	return ret;

end CQ_Equal;

function CQ_a_IsConstraintValid(val : CQ_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CQ_A);
    return ret;
end CQ_a_IsConstraintValid;

function CQ_IsConstraintValid(val : CQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CQ_a_IsConstraintValid(val.a);
    if ret.Success then
        if val.Exist.c = 1 then
            ret := P5_IsConstraintValid(val.c);
        end if;
    end if;
    return ret;
end CQ_IsConstraintValid;




procedure CQ_ACN_Encode_aux(val : CQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.c);
        if result.Success then
            -- Encode a
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a, 0, 3);
            if result.Success then
                -- Encode b
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b);
                if result.Success then
                    -- Encode c
                    if val.Exist.c = 1 then
                    	P5_ACN_Encode_aux(val.c, bs, result);
                    end if;
                end if;
            end if;
        end if;
    end if;
end CQ_ACN_Encode_aux;
procedure CQ_ACN_Encode(val : CQ; Stream : out CQ_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to CQ_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke CQ_ACN_Encode_aux directly).
    Stream := CQ_ACN_Stream'(Size_In_Bytes => CQ_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    CQ_ACN_Encode_aux(val, Stream, result); 
end CQ_ACN_Encode; 

procedure CQ_ACN_Decode_aux(val:out CQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    c_exist:adaasn1rtl.BIT;
begin
    result.ErrorCode := ERR_ACN_DECODE_CQ;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, c_exist, result.Success);
    val.Exist.c := c_exist;
    if result.Success then
        -- Decode a
        result.ErrorCode := ERR_ACN_DECODE_CQ_A;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode b
            result.ErrorCode := ERR_ACN_DECODE_CQ_B;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b, result.Success);
            if result.Success then
                -- Decode c
                if val.Exist.c = 1 then
                	P5_ACN_Decode_aux(val.c, bs, result);
                end if;
            end if;
        end if;
    end if;
end CQ_ACN_Decode_aux;
PROCEDURE CQ_ACN_Decode(val: out CQ; Stream : in out CQ_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    CQ_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := CQ_IsConstraintValid(val);
    end if;

end CQ_ACN_Decode; 



function DCoQ_t_Equal (val1, val2 :  DCoQ_t) return Boolean
is

begin
	return val1 = val2;

end DCoQ_t_Equal;

function DCoQ_Equal (val1, val2 :  DCoQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := CQ_Equal(val1.p, val2.p);

        if ret then
            ret := DCoQ_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DCoQ_Equal;

function DCoQ_t_IsConstraintValid(val : DCoQ_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCOQ_T);
    return ret;
end DCoQ_t_IsConstraintValid;

function DCoQ_IsConstraintValid(val : DCoQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := CQ_IsConstraintValid(val.p);
        if ret.Success then
            ret := DCoQ_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DCoQ_IsConstraintValid;




procedure DCoQ_ACN_Encode_aux(val : DCoQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCoQ_h_len:adaasn1rtl.Asn1UInt;
    DCoQ_h_len_is_initialized:Boolean:=False;
    tmpBs : adaasn1rtl.encoding.BitStream := adaasn1rtl.encoding.BitStream_init(CQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
begin
    result := DCoQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            --first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string
            declare
                bs : adaasn1rtl.encoding.Bitstream := tmpBs;
            begin
                adaasn1rtl.encoding.BitStream_AppendBit(bs,val.p.Exist.c);
                if result.Success then
                    -- Encode a
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p.a, 0, 3);
                    if result.Success then
                        -- Encode b
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.p.b);
                        if result.Success then
                            -- Encode c
                            if val.p.Exist.c = 1 then
                            	P5_ACN_Encode_aux(val.p.c, bs, result);
                            end if;
                        end if;
                    end if;
                end if;
                tmpBs := bs;
            end;
            if result.success then
            	DCoQ_h_len := adaasn1rtl.Asn1UInt(adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs));
            	DCoQ_h_len_is_initialized := True;
            end if;
            if result.Success then
                --Encode DCoQ_h_len
                if DCoQ_h_len_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DCoQ_h_len, 6);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCOQ_H_LEN_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode p
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, tmpBs.Buffer, Integer(DCoQ_h_len));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DCoQ_ACN_Encode_aux;
procedure DCoQ_ACN_Encode(val : DCoQ; Stream : out DCoQ_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DCoQ_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DCoQ_ACN_Encode_aux directly).
    Stream := DCoQ_ACN_Stream'(Size_In_Bytes => DCoQ_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DCoQ_ACN_Encode_aux(val, Stream, result); 
end DCoQ_ACN_Encode; 

procedure DCoQ_ACN_Decode_aux(val:out DCoQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCoQ_h_len:adaasn1rtl.Asn1UInt;
    c_exist:adaasn1rtl.BIT;
    tmpBs : adaasn1rtl.encoding.BitStream := adaasn1rtl.encoding.BitStream_init(CQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCOQ_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DCoQ_h_len
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DCoQ_h_len, 0, 63, 6, result);
        result.ErrorCode := ERR_ACN_DECODE_DCOQ_H_LEN;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCOQ_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode p
        result := adaasn1rtl.ASN1_RESULT'(Success => adaasn1rtl.Asn1UInt(DCoQ_h_len) <= adaasn1rtl.Asn1UInt(CQ_REQUIRED_BYTES_FOR_ACN_ENCODING), ErrorCode => ERR_ACN_DECODE_DCOQ_P_2);
        if result.success then
            --decode to the temporary bitstream buffer
        	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, tmpBs.Buffer, Integer(DCoQ_h_len), result.success);
        	if result.success then
                --open new scope to declare some variables
                declare
                    bs : adaasn1rtl.encoding.Bitstream := tmpBs;
                begin
                    result.ErrorCode := ERR_ACN_DECODE_DCOQ_P;
                    adaasn1rtl.encoding.BitStream_ReadBit(bs, c_exist, result.Success);
                    val.p.Exist.c := c_exist;
                    if result.Success then
                        -- Decode a
                        result.ErrorCode := ERR_ACN_DECODE_DCOQ_P_A;
                        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p.a, 0, 7, 3, result.Success);
                        if result.Success then
                            -- Decode b
                            result.ErrorCode := ERR_ACN_DECODE_DCOQ_P_B;
                            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.p.b, result.Success);
                            if result.Success then
                                -- Decode c
                                if val.p.Exist.c = 1 then
                                	P5_ACN_Decode_aux(val.p.c, bs, result);
                                end if;
                            end if;
                        end if;
                    end if;
        			--CQ_ACN_Decode_aux(val.p, tmpBs, result);
                end;
        	end if;
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DCOQ_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DCoQ_ACN_Decode_aux;
PROCEDURE DCoQ_ACN_Decode(val: out DCoQ; Stream : in out DCoQ_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DCoQ_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DCoQ_IsConstraintValid(val);
    end if;

end DCoQ_ACN_Decode; 



function DCoB_t_Equal (val1, val2 :  DCoB_t) return Boolean
is

begin
	return val1 = val2;

end DCoB_t_Equal;

function DCoB_Equal (val1, val2 :  DCoB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := CQ_Equal(val1.p, val2.p);

        if ret then
            ret := DCoB_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DCoB_Equal;

function DCoB_t_IsConstraintValid(val : DCoB_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCOB_T);
    return ret;
end DCoB_t_IsConstraintValid;

function DCoB_IsConstraintValid(val : DCoB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := CQ_IsConstraintValid(val.p);
        if ret.Success then
            ret := DCoB_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DCoB_IsConstraintValid;




procedure DCoB_ACN_Encode_aux(val : DCoB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCoB_h_len:adaasn1rtl.Asn1UInt;
    DCoB_h_len_is_initialized:Boolean:=False;
    tmpBs : adaasn1rtl.encoding.BitStream := adaasn1rtl.encoding.BitStream_init(CQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
begin
    result := DCoB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            --first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string
            declare
                bs : adaasn1rtl.encoding.Bitstream := tmpBs;
            begin
                adaasn1rtl.encoding.BitStream_AppendBit(bs,val.p.Exist.c);
                if result.Success then
                    -- Encode a
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p.a, 0, 3);
                    if result.Success then
                        -- Encode b
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.p.b);
                        if result.Success then
                            -- Encode c
                            if val.p.Exist.c = 1 then
                            	P5_ACN_Encode_aux(val.p.c, bs, result);
                            end if;
                        end if;
                    end if;
                end if;
                tmpBs := bs;
            end;
            if result.success then
            	DCoB_h_len := adaasn1rtl.Asn1UInt(tmpBs.Current_Bit_Pos);
            	DCoB_h_len_is_initialized := True;
            end if;
            if result.Success then
                --Encode DCoB_h_len
                if DCoB_h_len_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DCoB_h_len, 6);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCOB_H_LEN_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode p
            adaasn1rtl.encoding.BitStream_AppendBits(bs, tmpBs.Buffer, Integer(DCoB_h_len));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DCoB_ACN_Encode_aux;
procedure DCoB_ACN_Encode(val : DCoB; Stream : out DCoB_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DCoB_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DCoB_ACN_Encode_aux directly).
    Stream := DCoB_ACN_Stream'(Size_In_Bytes => DCoB_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DCoB_ACN_Encode_aux(val, Stream, result); 
end DCoB_ACN_Encode; 

procedure DCoB_ACN_Decode_aux(val:out DCoB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCoB_h_len:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCOB_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DCoB_h_len
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DCoB_h_len, 0, 63, 6, result);
        result.ErrorCode := ERR_ACN_DECODE_DCOB_H_LEN;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCOB_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode p
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CQ_REQUIRED_BYTES_FOR_ACN_ENCODING);
        begin
        	--decode to a temporary bitstream
        	result := adaasn1rtl.ASN1_RESULT'(Success => adaasn1rtl.Asn1UInt(DCoB_h_len) <= adaasn1rtl.Asn1UInt(CQ_REQUIRED_BITS_FOR_ACN_ENCODING), ErrorCode => ERR_ACN_DECODE_DCOB_P_2);
        	if result.success then
        		adaasn1rtl.encoding.BitStream_ReadBits(bs, tmpBs.Buffer, Integer(DCoB_h_len), result.success);
        		if result.success then
        			CQ_ACN_Decode_aux(val.p, tmpBs, result);
        		end if;
        	end if;

        end;

        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DCOB_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DCoB_ACN_Decode_aux;
PROCEDURE DCoB_ACN_Decode(val: out DCoB; Stream : in out DCoB_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DCoB_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DCoB_IsConstraintValid(val);
    end if;

end DCoB_ACN_Decode; 



function P8_Equal (val1, val2 :  P8) return Boolean
is

begin
	return val1 = val2;

end P8_Equal;

function P8_IsConstraintValid(val : P8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 255);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P8);
    return ret;
end P8_IsConstraintValid;



procedure P8_ACN_Encode_aux(val : P8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val);
    end if;
end P8_ACN_Encode_aux;
procedure P8_ACN_Encode(val : P8; Stream : out P8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P8_ACN_Encode_aux directly).
    Stream := P8_ACN_Stream'(Size_In_Bytes => P8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P8_ACN_Encode_aux(val, Stream, result); 
end P8_ACN_Encode; 

procedure P8_ACN_Decode_aux(val:out P8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val, 0, 255, result);
    result.ErrorCode := ERR_ACN_DECODE_P8;

end P8_ACN_Decode_aux;
PROCEDURE P8_ACN_Decode(val: out P8; Stream : in out P8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P8_IsConstraintValid(val);
    end if;

end P8_ACN_Decode; 



function PB_x_Equal (val1, val2 :  PB_x) return Boolean
is

begin
	return val1 = val2;

end PB_x_Equal;

function PB_Equal (val1, val2 :  PB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := PB_x_Equal(val1.x, val2.x);

    if ret then
        ret := val1.Exist.o = val2.Exist.o;
        if ret and then val1.Exist.o = 1 then
            ret := (val1.o = val2.o);
        end if;

        if ret then
            ret := (val1.z = val2.z);

        end if;
    end if;
	return ret;

end PB_Equal;

function PB_x_IsConstraintValid(val : PB_x) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PB_X);
    return ret;
end PB_x_IsConstraintValid;

function PB_IsConstraintValid(val : PB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := PB_x_IsConstraintValid(val.x);
    if ret.Success then
        if val.Exist.o = 1 then
            ret := P8_IsConstraintValid(val.o);
        end if;
    end if;
    return ret;
end PB_IsConstraintValid;






function DPrB_t_Equal (val1, val2 :  DPrB_t) return Boolean
is

begin
	return val1 = val2;

end DPrB_t_Equal;

function DPrB_Equal (val1, val2 :  DPrB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := PB_Equal(val1.b, val2.b);

            if ret then
                ret := DPrB_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DPrB_Equal;

function DPrB_t_IsConstraintValid(val : DPrB_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DPRB_T);
    return ret;
end DPrB_t_IsConstraintValid;

function DPrB_IsConstraintValid(val : DPrB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DPrB_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DPrB_IsConstraintValid;




procedure DPrB_ACN_Encode_aux(val : DPrB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPrB_h_f:adaasn1rtl.Asn1Boolean;
    DPrB_h_f_is_initialized:Boolean:=False;
begin
    result := DPrB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DPrB_h_f_is_initialized := True;
            DPrB_h_f := (val.b.exist.o = 1);
            if result.Success then
                --Encode DPrB_h_f
                if DPrB_h_f_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, DPrB_h_f);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DPRB_H_F_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.x, 0, 3);
                if result.Success then
                    -- Encode o
                    if val.b.Exist.o = 1 then
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.b.o);
                    end if;
                    if result.Success then
                        -- Encode z
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.z);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DPrB_ACN_Encode_aux;
procedure DPrB_ACN_Encode(val : DPrB; Stream : out DPrB_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DPrB_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DPrB_ACN_Encode_aux directly).
    Stream := DPrB_ACN_Stream'(Size_In_Bytes => DPrB_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DPrB_ACN_Encode_aux(val, Stream, result); 
end DPrB_ACN_Encode; 

procedure DPrB_ACN_Decode_aux(val:out DPrB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DPrB_h_f:adaasn1rtl.Asn1Boolean;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DPRB_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DPrB_h_f
        result.ErrorCode := ERR_ACN_DECODE_DPRB_H_F;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, DPrB_h_f, result.Success);
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DPRB_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DPRB_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DPRB_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.x, 0, 7, 3, result.Success);
            if result.Success then
                val.b.Exist.o := (if DPrB_h_f then 1 else 0);
                result.Success := true;
                -- Decode o
                if val.b.Exist.o = 1 then
                	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.b.o, 0, 255, result);
                	result.ErrorCode := ERR_ACN_DECODE_DPRB_B_O;

                end if;
                if result.Success then
                    -- Decode z
                    result.ErrorCode := ERR_ACN_DECODE_DPRB_B_Z;
                    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.z, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DPRB_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DPrB_ACN_Decode_aux;
PROCEDURE DPrB_ACN_Decode(val: out DPrB; Stream : in out DPrB_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DPrB_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DPrB_IsConstraintValid(val);
    end if;

end DPrB_ACN_Decode; 



function DShP_t_Equal (val1, val2 :  DShP_t) return Boolean
is

begin
	return val1 = val2;

end DShP_t_Equal;

function DShP_Equal (val1, val2 :  DShP) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := PB_Equal(val1.b, val2.b);

        if ret then
            ret := PB_Equal(val1.c, val2.c);

            if ret then
                ret := DShP_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DShP_Equal;

function DShP_t_IsConstraintValid(val : DShP_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSHP_T);
    return ret;
end DShP_t_IsConstraintValid;

function DShP_IsConstraintValid(val : DShP) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PB_IsConstraintValid(val.b);
        if ret.Success then
            ret := PB_IsConstraintValid(val.c);
            if ret.Success then
                ret := DShP_t_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end DShP_IsConstraintValid;




procedure DShP_ACN_Encode_aux(val : DShP; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShP_h_f:adaasn1rtl.Asn1Boolean;
    DShP_h_f_is_initialized:Boolean:=False;
begin
    result := DShP_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            declare
                DShP_h_f00:adaasn1rtl.Asn1Boolean;
                DShP_h_f00_is_initialized:Boolean:=False;
                DShP_h_f01:adaasn1rtl.Asn1Boolean;
                DShP_h_f01_is_initialized:Boolean:=False;
            begin

                DShP_h_f00_is_initialized := True;
                DShP_h_f00 := (val.c.exist.o = 1);
                DShP_h_f01_is_initialized := True;
                DShP_h_f01 := (val.b.exist.o = 1);

                if DShP_h_f00_is_initialized then		--COVERAGE_IGNORE
                    DShP_h_f := DShP_h_f00;													--COVERAGE_IGNORE
                elsif DShP_h_f01_is_initialized then		--COVERAGE_IGNORE
                    DShP_h_f := DShP_h_f01;													--COVERAGE_IGNORE
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHP_H_F);		--COVERAGE_IGNORE
                end if;

                result := adaasn1rtl.ASN1_RESULT'(Success => result.Success and (((DShP_h_f00_is_initialized and DShP_h_f = DShP_h_f00) or not DShP_h_f00_is_initialized) and ((DShP_h_f01_is_initialized and DShP_h_f = DShP_h_f01) or not DShP_h_f01_is_initialized)), ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHP_H_F);
                DShP_h_f_is_initialized := result.Success;
            end;
            if result.Success then
                --Encode DShP_h_f
                if DShP_h_f_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, DShP_h_f);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSHP_H_F_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            -- Encode x
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.x, 0, 3);
            if result.Success then
                -- Encode o
                if val.b.Exist.o = 1 then
                	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.b.o);
                end if;
                if result.Success then
                    -- Encode z
                    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.z);
                end if;
            end if;
            if result.Success then
                -- Encode c
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.c.x, 0, 3);
                if result.Success then
                    -- Encode o
                    if val.c.Exist.o = 1 then
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.c.o);
                    end if;
                    if result.Success then
                        -- Encode z
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.c.z);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DShP_ACN_Encode_aux;
procedure DShP_ACN_Encode(val : DShP; Stream : out DShP_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DShP_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DShP_ACN_Encode_aux directly).
    Stream := DShP_ACN_Stream'(Size_In_Bytes => DShP_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DShP_ACN_Encode_aux(val, Stream, result); 
end DShP_ACN_Encode; 

procedure DShP_ACN_Decode_aux(val:out DShP; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShP_h_f:adaasn1rtl.Asn1Boolean;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DSHP_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DShP_h_f
        result.ErrorCode := ERR_ACN_DECODE_DSHP_H_F;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, DShP_h_f, result.Success);
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DSHP_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        -- Decode x
        result.ErrorCode := ERR_ACN_DECODE_DSHP_B_X;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.x, 0, 7, 3, result.Success);
        if result.Success then
            val.b.Exist.o := (if DShP_h_f then 1 else 0);
            result.Success := true;
            -- Decode o
            if val.b.Exist.o = 1 then
            	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.b.o, 0, 255, result);
            	result.ErrorCode := ERR_ACN_DECODE_DSHP_B_O;

            end if;
            if result.Success then
                -- Decode z
                result.ErrorCode := ERR_ACN_DECODE_DSHP_B_Z;
                adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.z, result.Success);
            end if;
        end if;
        if result.Success then
            -- Decode c
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DSHP_C_X;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.c.x, 0, 7, 3, result.Success);
            if result.Success then
                val.c.Exist.o := (if DShP_h_f then 1 else 0);
                result.Success := true;
                -- Decode o
                if val.c.Exist.o = 1 then
                	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.c.o, 0, 255, result);
                	result.ErrorCode := ERR_ACN_DECODE_DSHP_C_O;

                end if;
                if result.Success then
                    -- Decode z
                    result.ErrorCode := ERR_ACN_DECODE_DSHP_C_Z;
                    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.c.z, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DSHP_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DShP_ACN_Decode_aux;
PROCEDURE DShP_ACN_Decode(val: out DShP; Stream : in out DShP_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DShP_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DShP_IsConstraintValid(val);
    end if;

end DShP_ACN_Decode; 



function PCI_w3_Equal (val1, val2 :  PCI_w3) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end PCI_w3_Equal;

function PCI_Equal (val1, val2 :  PCI) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when w1_PRESENT =>
                ret := (val1.w1 = val2.w1);
            when w2_PRESENT =>
                ret := (val1.w2 = val2.w2);
            when w3_PRESENT =>
                ret := PCI_w3_Equal(val1.w3, val2.w3);
        end case;
    end if;
	return ret;

end PCI_Equal;

function PCI_w3_IsConstraintValid(val : PCI_w3) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 9);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PCI_W3);
    return ret;
end PCI_w3_IsConstraintValid;

function PCI_IsConstraintValid(val : PCI) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN w1_PRESENT =>
            ret := P8_IsConstraintValid(val.w1);
        WHEN w2_PRESENT =>
            ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
        WHEN w3_PRESENT =>
            ret := PCI_w3_IsConstraintValid(val.w3);
    end case;
    return ret;
end PCI_IsConstraintValid;






function DChI_t_Equal (val1, val2 :  DChI_t) return Boolean
is

begin
	return val1 = val2;

end DChI_t_Equal;

function DChI_Equal (val1, val2 :  DChI) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := PCI_Equal(val1.b, val2.b);

            if ret then
                ret := DChI_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DChI_Equal;

function DChI_t_IsConstraintValid(val : DChI_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCHI_T);
    return ret;
end DChI_t_IsConstraintValid;

function DChI_IsConstraintValid(val : DChI) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PCI_IsConstraintValid(val.b);
        if ret.Success then
            ret := DChI_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DChI_IsConstraintValid;




procedure DChI_ACN_Encode_aux(val : DChI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChI_h_k:adaasn1rtl.Asn1UInt;
    DChI_h_k_is_initialized:Boolean:=False;
begin
    result := DChI_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            case val.b.kind is
                when w1_PRESENT =>
                    DChI_h_k_is_initialized := True;
                	DChI_h_k := 10;
                when w2_PRESENT =>
                    DChI_h_k_is_initialized := True;
                	DChI_h_k := 20;
                when w3_PRESENT =>
                    DChI_h_k_is_initialized := True;
                	DChI_h_k := 30;
            end case;
            if result.Success then
                --Encode DChI_h_k
                if DChI_h_k_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DChI_h_k);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCHI_H_K_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                case val.b.kind is
                    when w1_PRESENT =>
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.b.w1);
                    when w2_PRESENT =>
                    	adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.w2);
                    when w3_PRESENT =>
                    	result.Success := val.b.w3.Length >= 0 AND val.b.w3.Length <= 9;
                    	result.errorCode := ERR_ACN_ENCODE_DCHI_B_W3;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.w3.Length), 0, 4);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.w3.Data, Integer(val.b.w3.Length));
                    	end if;
                end case;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DChI_ACN_Encode_aux;
procedure DChI_ACN_Encode(val : DChI; Stream : out DChI_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DChI_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DChI_ACN_Encode_aux directly).
    Stream := DChI_ACN_Stream'(Size_In_Bytes => DChI_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DChI_ACN_Encode_aux(val, Stream, result); 
end DChI_ACN_Encode; 

procedure DChI_ACN_Decode_aux(val:out DChI; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChI_h_k:adaasn1rtl.Asn1UInt;
    nStringLength:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCHI_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DChI_h_k
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DChI_h_k, 0, 255, result);
        result.ErrorCode := ERR_ACN_DECODE_DCHI_H_K;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCHI_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DCHI_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
            if ((DChI_h_k = 10)) then
              val.b := PCI'(kind => w1_PRESENT, w1 => 0);
              adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.b.w1, 0, 255, result);
              result.ErrorCode := ERR_ACN_DECODE_DCHI_B_W1;

            elsif ((DChI_h_k = 20)) then
              val.b := PCI'(kind => w2_PRESENT, w2 => False);
              result.ErrorCode := ERR_ACN_DECODE_DCHI_B_W2;
              adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.w2, result.Success);
            elsif ((DChI_h_k = 30)) then
              val.b := PCI'(kind => w3_PRESENT, w3 => (Length => 0, Data => (others => 0)));
              adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 9, 4, result.Success);
              result.errorCode := ERR_ACN_DECODE_DCHI_B_W3;
              val.b.w3.Length := nStringLength;
              if result.Success then
                  adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.w3.Data, Integer(val.b.w3.Length), result.success);
              end if;
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_DCHI_B);		-- COVERAGE_IGNORE
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DCHI_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DChI_ACN_Decode_aux;
PROCEDURE DChI_ACN_Decode(val: out DChI; Stream : in out DChI_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DChI_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DChI_IsConstraintValid(val);
    end if;

end DChI_ACN_Decode; 



function DShC_t_Equal (val1, val2 :  DShC_t) return Boolean
is

begin
	return val1 = val2;

end DShC_t_Equal;

function DShC_Equal (val1, val2 :  DShC) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := PCI_Equal(val1.b, val2.b);

        if ret then
            ret := PCI_Equal(val1.c, val2.c);

            if ret then
                ret := DShC_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DShC_Equal;

function DShC_t_IsConstraintValid(val : DShC_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSHC_T);
    return ret;
end DShC_t_IsConstraintValid;

function DShC_IsConstraintValid(val : DShC) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PCI_IsConstraintValid(val.b);
        if ret.Success then
            ret := PCI_IsConstraintValid(val.c);
            if ret.Success then
                ret := DShC_t_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end DShC_IsConstraintValid;




procedure DShC_ACN_Encode_aux(val : DShC; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShC_h_k:adaasn1rtl.Asn1UInt;
    DShC_h_k_is_initialized:Boolean:=False;
begin
    result := DShC_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            declare
                DShC_h_k00:adaasn1rtl.Asn1UInt;
                DShC_h_k00_is_initialized:Boolean:=False;
                DShC_h_k01:adaasn1rtl.Asn1UInt;
                DShC_h_k01_is_initialized:Boolean:=False;
            begin

                case val.c.kind is
                    when w1_PRESENT =>
                        DShC_h_k00_is_initialized := True;
                    	DShC_h_k00 := 10;
                    when w2_PRESENT =>
                        DShC_h_k00_is_initialized := True;
                    	DShC_h_k00 := 20;
                    when w3_PRESENT =>
                        DShC_h_k00_is_initialized := True;
                    	DShC_h_k00 := 30;
                end case;
                case val.b.kind is
                    when w1_PRESENT =>
                        DShC_h_k01_is_initialized := True;
                    	DShC_h_k01 := 10;
                    when w2_PRESENT =>
                        DShC_h_k01_is_initialized := True;
                    	DShC_h_k01 := 20;
                    when w3_PRESENT =>
                        DShC_h_k01_is_initialized := True;
                    	DShC_h_k01 := 30;
                end case;

                if DShC_h_k00_is_initialized then		--COVERAGE_IGNORE
                    DShC_h_k := DShC_h_k00;													--COVERAGE_IGNORE
                elsif DShC_h_k01_is_initialized then		--COVERAGE_IGNORE
                    DShC_h_k := DShC_h_k01;													--COVERAGE_IGNORE
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHC_H_K);		--COVERAGE_IGNORE
                end if;

                result := adaasn1rtl.ASN1_RESULT'(Success => result.Success and (((DShC_h_k00_is_initialized and DShC_h_k = DShC_h_k00) or not DShC_h_k00_is_initialized) and ((DShC_h_k01_is_initialized and DShC_h_k = DShC_h_k01) or not DShC_h_k01_is_initialized)), ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHC_H_K);
                DShC_h_k_is_initialized := result.Success;
            end;
            if result.Success then
                --Encode DShC_h_k
                if DShC_h_k_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DShC_h_k);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSHC_H_K_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            case val.b.kind is
                when w1_PRESENT =>
                	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.b.w1);
                when w2_PRESENT =>
                	adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.w2);
                when w3_PRESENT =>
                	result.Success := val.b.w3.Length >= 0 AND val.b.w3.Length <= 9;
                	result.errorCode := ERR_ACN_ENCODE_DSHC_B_W3;
                	if result.Success then
                	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.w3.Length), 0, 4);
                	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.w3.Data, Integer(val.b.w3.Length));
                	end if;
            end case;
            if result.Success then
                -- Encode c
                case val.c.kind is
                    when w1_PRESENT =>
                    	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.c.w1);
                    when w2_PRESENT =>
                    	adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.c.w2);
                    when w3_PRESENT =>
                    	result.Success := val.c.w3.Length >= 0 AND val.c.w3.Length <= 9;
                    	result.errorCode := ERR_ACN_ENCODE_DSHC_C_W3;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.c.w3.Length), 0, 4);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.c.w3.Data, Integer(val.c.w3.Length));
                    	end if;
                end case;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DShC_ACN_Encode_aux;
procedure DShC_ACN_Encode(val : DShC; Stream : out DShC_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DShC_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DShC_ACN_Encode_aux directly).
    Stream := DShC_ACN_Stream'(Size_In_Bytes => DShC_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DShC_ACN_Encode_aux(val, Stream, result); 
end DShC_ACN_Encode; 

procedure DShC_ACN_Decode_aux(val:out DShC; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShC_h_k:adaasn1rtl.Asn1UInt;
    nStringLength:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DSHC_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DShC_h_k
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DShC_h_k, 0, 255, result);
        result.ErrorCode := ERR_ACN_DECODE_DSHC_H_K;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DSHC_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
        if ((DShC_h_k = 10)) then
          val.b := PCI'(kind => w1_PRESENT, w1 => 0);
          adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.b.w1, 0, 255, result);
          result.ErrorCode := ERR_ACN_DECODE_DSHC_B_W1;

        elsif ((DShC_h_k = 20)) then
          val.b := PCI'(kind => w2_PRESENT, w2 => False);
          result.ErrorCode := ERR_ACN_DECODE_DSHC_B_W2;
          adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.w2, result.Success);
        elsif ((DShC_h_k = 30)) then
          val.b := PCI'(kind => w3_PRESENT, w3 => (Length => 0, Data => (others => 0)));
          adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 9, 4, result.Success);
          result.errorCode := ERR_ACN_DECODE_DSHC_B_W3;
          val.b.w3.Length := nStringLength;
          if result.Success then
              adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.w3.Data, Integer(val.b.w3.Length), result.success);
          end if;
        else
            result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_DSHC_B);		-- COVERAGE_IGNORE
        end if;
        if result.Success then
            -- Decode c
            result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
            if ((DShC_h_k = 10)) then
              val.c := PCI'(kind => w1_PRESENT, w1 => 0);
              adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.c.w1, 0, 255, result);
              result.ErrorCode := ERR_ACN_DECODE_DSHC_C_W1;

            elsif ((DShC_h_k = 20)) then
              val.c := PCI'(kind => w2_PRESENT, w2 => False);
              result.ErrorCode := ERR_ACN_DECODE_DSHC_C_W2;
              adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.c.w2, result.Success);
            elsif ((DShC_h_k = 30)) then
              val.c := PCI'(kind => w3_PRESENT, w3 => (Length => 0, Data => (others => 0)));
              adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 9, 4, result.Success);
              result.errorCode := ERR_ACN_DECODE_DSHC_C_W3;
              val.c.w3.Length := nStringLength;
              if result.Success then
                  adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.c.w3.Data, Integer(val.c.w3.Length), result.success);
              end if;
            else
                result := adaasn1rtl.ASN1_RESULT'(Success => false, ErrorCode => ERR_ACN_DECODE_DSHC_C);		-- COVERAGE_IGNORE
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DSHC_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DShC_ACN_Decode_aux;
PROCEDURE DShC_ACN_Decode(val: out DShC; Stream : in out DShC_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DShC_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DShC_IsConstraintValid(val);
    end if;

end DShC_ACN_Decode; 



function P32_Equal (val1, val2 :  P32) return Boolean
is

begin
	return val1 = val2;

end P32_Equal;

function P32_IsConstraintValid(val : P32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 4294967295);
    ret.ErrorCode := (if ret.Success then 0 else ERR_P32);
    return ret;
end P32_IsConstraintValid;



procedure P32_ACN_Encode_aux(val : P32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := P32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(bs, val);
    end if;
end P32_ACN_Encode_aux;
procedure P32_ACN_Encode(val : P32; Stream : out P32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to P32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke P32_ACN_Encode_aux directly).
    Stream := P32_ACN_Stream'(Size_In_Bytes => P32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    P32_ACN_Encode_aux(val, Stream, result); 
end P32_ACN_Encode; 

procedure P32_ACN_Decode_aux(val:out P32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(bs, val, 0, 4294967295, result);
    result.ErrorCode := ERR_ACN_DECODE_P32;

end P32_ACN_Decode_aux;
PROCEDURE P32_ACN_Decode(val: out P32; Stream : in out P32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    P32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := P32_IsConstraintValid(val);
    end if;

end P32_ACN_Decode; 



function CP_b_Equal (val1, val2 :  CP_b) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end CP_b_Equal;

function CP_Equal (val1, val2 :  CP) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.a = val2.a);

    if ret then
        ret := CP_b_Equal(val1.b, val2.b);

        if ret then
            ret := (val1.c = val2.c);

        end if;
    end if;
	return ret;

end CP_Equal;

function CP_b_IsConstraintValid(val : CP_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 30);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CP_B);
    return ret;
end CP_b_IsConstraintValid;

function CP_IsConstraintValid(val : CP) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := P32_IsConstraintValid(val.a);
    if ret.Success then
        ret := CP_b_IsConstraintValid(val.b);
        if ret.Success then
            ret := P8_IsConstraintValid(val.c);
        end if;
    end if;
    return ret;
end CP_IsConstraintValid;






function DCo_t_Equal (val1, val2 :  DCo_t) return Boolean
is

begin
	return val1 = val2;

end DCo_t_Equal;

function DCo_Equal (val1, val2 :  DCo) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := CP_Equal(val1.p, val2.p);

        if ret then
            ret := DCo_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DCo_Equal;

function DCo_t_IsConstraintValid(val : DCo_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCO_T);
    return ret;
end DCo_t_IsConstraintValid;

function DCo_IsConstraintValid(val : DCo) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := CP_IsConstraintValid(val.p);
        if ret.Success then
            ret := DCo_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DCo_IsConstraintValid;




procedure DCo_ACN_Encode_aux(val : DCo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCo_h_len:adaasn1rtl.Asn1UInt;
    DCo_h_len_is_initialized:Boolean:=False;
    DCo_h_n:adaasn1rtl.Asn1UInt;
    DCo_h_n_is_initialized:Boolean:=False;
    tmpBs : adaasn1rtl.encoding.BitStream := adaasn1rtl.encoding.BitStream_init(CP_REQUIRED_BYTES_FOR_ACN_ENCODING);
begin
    result := DCo_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            --first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string
            declare
                bs : adaasn1rtl.encoding.Bitstream := tmpBs;
            begin
                -- Encode a
                P32_ACN_Encode_aux(val.p.a, bs, result);
                if result.Success then
                    -- Encode b
                    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.p.b.Data, Integer(val.p.b.Length));
                    if result.Success then
                        -- Encode c
                        P8_ACN_Encode_aux(val.p.c, bs, result);
                    end if;
                end if;
                tmpBs := bs;
            end;
            if result.success then
            	DCo_h_len := adaasn1rtl.Asn1UInt(adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs));
            	DCo_h_len_is_initialized := True;
            end if;
            if result.Success then
                --Encode DCo_h_len
                if DCo_h_len_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(bs, DCo_h_len);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCO_H_LEN_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                DCo_h_n_is_initialized := True;
                DCo_h_n := adaasn1rtl.Asn1UInt(val.p.b.Length);

                if result.Success then
                    --Encode DCo_h_n
                    if DCo_h_n_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DCo_h_n);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCO_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode e
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
                end if;
            end if;
        end if;
        if result.Success then
            -- Encode p
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, tmpBs.Buffer, Integer(DCo_h_len));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DCo_ACN_Encode_aux;
procedure DCo_ACN_Encode(val : DCo; Stream : out DCo_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DCo_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DCo_ACN_Encode_aux directly).
    Stream := DCo_ACN_Stream'(Size_In_Bytes => DCo_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DCo_ACN_Encode_aux(val, Stream, result); 
end DCo_ACN_Encode; 

procedure DCo_ACN_Decode_aux(val:out DCo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DCo_h_len:adaasn1rtl.Asn1UInt;
    DCo_h_n:adaasn1rtl.Asn1UInt;
    tmpBs : adaasn1rtl.encoding.BitStream := adaasn1rtl.encoding.BitStream_init(CP_REQUIRED_BYTES_FOR_ACN_ENCODING);
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCO_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DCo_h_len
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(bs, DCo_h_len, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_DCO_H_LEN;

        if result.Success then
            -- Decode DCo_h_n
            adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DCo_h_n, 0, 255, result);
            result.ErrorCode := ERR_ACN_DECODE_DCO_H_N;

            if result.Success then
                -- Decode e
                result.ErrorCode := ERR_ACN_DECODE_DCO_H_E;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
            end if;
        end if;
    end if;
    if result.Success then
        -- Decode p
        result := adaasn1rtl.ASN1_RESULT'(Success => adaasn1rtl.Asn1UInt(DCo_h_len) <= adaasn1rtl.Asn1UInt(CP_REQUIRED_BYTES_FOR_ACN_ENCODING), ErrorCode => ERR_ACN_DECODE_DCO_P_2);
        if result.success then
            --decode to the temporary bitstream buffer
        	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, tmpBs.Buffer, Integer(DCo_h_len), result.success);
        	if result.success then
                --open new scope to declare some variables
                declare
                    bs : adaasn1rtl.encoding.Bitstream := tmpBs;
                begin
                    -- Decode a
                    P32_ACN_Decode_aux(val.p.a, bs, result);
                    if result.Success then
                        -- Decode b
                        result := adaasn1rtl.ASN1_RESULT'(Success => DCo_h_n<=30, ErrorCode => ERR_ACN_DECODE_DCO_P_B);
                        if result.Success then
                            val.p.b.Length := Integer(DCo_h_n);
                            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.p.b.Data, Integer(val.p.b.Length), result.success);
                        end if;
                        if result.Success then
                            -- Decode c
                            P8_ACN_Decode_aux(val.p.c, bs, result);
                        end if;
                    end if;
        			--CP_ACN_Decode_aux(val.p, tmpBs, result);
                end;
        	end if;
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DCO_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DCo_ACN_Decode_aux;
PROCEDURE DCo_ACN_Decode(val: out DCo; Stream : in out DCo_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DCo_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DCo_IsConstraintValid(val);
    end if;

end DCo_ACN_Decode; 



function OB_Equal (val1, val2 :  OB) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OB_Equal;

function OB_IsConstraintValid(val : OB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 25);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OB);
    return ret;
end OB_IsConstraintValid;





function DW16L_t_Equal (val1, val2 :  DW16L_t) return Boolean
is

begin
	return val1 = val2;

end DW16L_t_Equal;

function DW16L_Equal (val1, val2 :  DW16L) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := OB_Equal(val1.b, val2.b);

            if ret then
                ret := DW16L_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW16L_Equal;

function DW16L_t_IsConstraintValid(val : DW16L_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW16L_T);
    return ret;
end DW16L_t_IsConstraintValid;

function DW16L_IsConstraintValid(val : DW16L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW16L_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW16L_IsConstraintValid;




procedure DW16L_ACN_Encode_aux(val : DW16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW16L_h_n:adaasn1rtl.Asn1UInt;
    DW16L_h_n_is_initialized:Boolean:=False;
begin
    result := DW16L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW16L_h_n_is_initialized := True;
            DW16L_h_n := adaasn1rtl.Asn1UInt(val.b.Length);

            if result.Success then
                --Encode DW16L_h_n
                if DW16L_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(bs, DW16L_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW16L_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW16L_ACN_Encode_aux;
procedure DW16L_ACN_Encode(val : DW16L; Stream : out DW16L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW16L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW16L_ACN_Encode_aux directly).
    Stream := DW16L_ACN_Stream'(Size_In_Bytes => DW16L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW16L_ACN_Encode_aux(val, Stream, result); 
end DW16L_ACN_Encode; 

procedure DW16L_ACN_Decode_aux(val:out DW16L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW16L_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW16L_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW16L_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(bs, DW16L_h_n, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_DW16L_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW16L_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW16L_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            result := adaasn1rtl.ASN1_RESULT'(Success => DW16L_h_n<=25, ErrorCode => ERR_ACN_DECODE_DW16L_B);
            if result.Success then
                val.b.Length := Integer(DW16L_h_n);
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW16L_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW16L_ACN_Decode_aux;
PROCEDURE DW16L_ACN_Decode(val: out DW16L; Stream : in out DW16L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW16L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW16L_IsConstraintValid(val);
    end if;

end DW16L_ACN_Decode; 



function DW64L_t_Equal (val1, val2 :  DW64L_t) return Boolean
is

begin
	return val1 = val2;

end DW64L_t_Equal;

function DW64L_Equal (val1, val2 :  DW64L) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := OB_Equal(val1.b, val2.b);

            if ret then
                ret := DW64L_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW64L_Equal;

function DW64L_t_IsConstraintValid(val : DW64L_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW64L_T);
    return ret;
end DW64L_t_IsConstraintValid;

function DW64L_IsConstraintValid(val : DW64L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW64L_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW64L_IsConstraintValid;




procedure DW64L_ACN_Encode_aux(val : DW64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW64L_h_n:adaasn1rtl.Asn1UInt;
    DW64L_h_n_is_initialized:Boolean:=False;
begin
    result := DW64L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW64L_h_n_is_initialized := True;
            DW64L_h_n := adaasn1rtl.Asn1UInt(val.b.Length);

            if result.Success then
                --Encode DW64L_h_n
                if DW64L_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(bs, DW64L_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW64L_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW64L_ACN_Encode_aux;
procedure DW64L_ACN_Encode(val : DW64L; Stream : out DW64L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW64L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW64L_ACN_Encode_aux directly).
    Stream := DW64L_ACN_Stream'(Size_In_Bytes => DW64L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW64L_ACN_Encode_aux(val, Stream, result); 
end DW64L_ACN_Encode; 

procedure DW64L_ACN_Decode_aux(val:out DW64L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW64L_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW64L_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW64L_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(bs, DW64L_h_n, 0, 18446744073709551615, result);
        result.ErrorCode := ERR_ACN_DECODE_DW64L_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW64L_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW64L_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            result := adaasn1rtl.ASN1_RESULT'(Success => DW64L_h_n<=25, ErrorCode => ERR_ACN_DECODE_DW64L_B);
            if result.Success then
                val.b.Length := Integer(DW64L_h_n);
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW64L_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW64L_ACN_Decode_aux;
PROCEDURE DW64L_ACN_Decode(val: out DW64L; Stream : in out DW64L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW64L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW64L_IsConstraintValid(val);
    end if;

end DW64L_ACN_Decode; 



function DI32_t_Equal (val1, val2 :  DI32_t) return Boolean
is

begin
	return val1 = val2;

end DI32_t_Equal;

function DI32_Equal (val1, val2 :  DI32) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := OB_Equal(val1.b, val2.b);

            if ret then
                ret := DI32_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DI32_Equal;

function DI32_t_IsConstraintValid(val : DI32_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DI32_T);
    return ret;
end DI32_t_IsConstraintValid;

function DI32_IsConstraintValid(val : DI32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DI32_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DI32_IsConstraintValid;




procedure DI32_ACN_Encode_aux(val : DI32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI32_h_n:adaasn1rtl.Asn1Int;
    DI32_h_n_is_initialized:Boolean:=False;
begin
    result := DI32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DI32_h_n_is_initialized := True;
            DI32_h_n := adaasn1rtl.Asn1Int(val.b.Length);

            if result.Success then
                --Encode DI32_h_n
                if DI32_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(bs, DI32_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DI32_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DI32_ACN_Encode_aux;
procedure DI32_ACN_Encode(val : DI32; Stream : out DI32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DI32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DI32_ACN_Encode_aux directly).
    Stream := DI32_ACN_Stream'(Size_In_Bytes => DI32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DI32_ACN_Encode_aux(val, Stream, result); 
end DI32_ACN_Encode; 

procedure DI32_ACN_Decode_aux(val:out DI32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI32_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DI32_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DI32_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(bs, DI32_h_n, -2147483648, 2147483647, result);
        result.ErrorCode := ERR_ACN_DECODE_DI32_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DI32_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DI32_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DI32_h_n AND DI32_h_n<=25, ErrorCode => ERR_ACN_DECODE_DI32_B);
            if result.Success then
                val.b.Length := Integer(DI32_h_n);
                adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DI32_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DI32_ACN_Decode_aux;
PROCEDURE DI32_ACN_Decode(val: out DI32; Stream : in out DI32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DI32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DI32_IsConstraintValid(val);
    end if;

end DI32_ACN_Decode; 



function Lv3_z_Equal (val1, val2 :  Lv3_z) return Boolean
is

begin
	return val1 = val2;

end Lv3_z_Equal;

function Lv3_Equal (val1, val2 :  Lv3) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Lv3_z_Equal(val1.z, val2.z);

    if ret then
        ret := OB_Equal(val1.o, val2.o);

    end if;
	return ret;

end Lv3_Equal;

function Lv3_z_IsConstraintValid(val : Lv3_z) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_LV3_Z);
    return ret;
end Lv3_z_IsConstraintValid;

function Lv3_IsConstraintValid(val : Lv3) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Lv3_z_IsConstraintValid(val.z);
    if ret.Success then
        ret := OB_IsConstraintValid(val.o);
    end if;
    return ret;
end Lv3_IsConstraintValid;






function Lv2_Equal (val1, val2 :  Lv2) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Lv3_Equal(val1.l3, val2.l3);

    if ret then
        ret := PB_Equal(val1.p, val2.p);

    end if;
	return ret;

end Lv2_Equal;

function Lv2_IsConstraintValid(val : Lv2) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Lv3_IsConstraintValid(val.l3);
    if ret.Success then
        ret := PB_IsConstraintValid(val.p);
    end if;
    return ret;
end Lv2_IsConstraintValid;





function Lv1_y_Equal (val1, val2 :  Lv1_y) return Boolean
is

begin
	return val1 = val2;

end Lv1_y_Equal;

function Lv1_Equal (val1, val2 :  Lv1) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.x = val2.x);

    if ret then
        ret := Lv2_Equal(val1.l2, val2.l2);

        if ret then
            ret := Lv1_y_Equal(val1.y, val2.y);

        end if;
    end if;
	return ret;

end Lv1_Equal;

function Lv1_y_IsConstraintValid(val : Lv1_y) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_LV1_Y);
    return ret;
end Lv1_y_IsConstraintValid;

function Lv1_IsConstraintValid(val : Lv1) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Lv2_IsConstraintValid(val.l2);
    if ret.Success then
        ret := Lv1_y_IsConstraintValid(val.y);
    end if;
    return ret;
end Lv1_IsConstraintValid;






function DFwd_m_Equal (val1, val2 :  DFwd_m) return Boolean
is

begin
	return val1 = val2;

end DFwd_m_Equal;

function DFwd_Equal (val1, val2 :  DFwd) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := DFwd_m_Equal(val1.m, val2.m);

        if ret then
            ret := Lv1_Equal(val1.l, val2.l);

            if ret then
                ret := (val1.t = val2.t);

            end if;
        end if;
    end if;
	return ret;

end DFwd_Equal;

function DFwd_m_IsConstraintValid(val : DFwd_m) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DFWD_M);
    return ret;
end DFwd_m_IsConstraintValid;

function DFwd_IsConstraintValid(val : DFwd) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := DFwd_m_IsConstraintValid(val.m);
        if ret.Success then
            ret := Lv1_IsConstraintValid(val.l);
            if ret.Success then
                ret := P8_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end DFwd_IsConstraintValid;




procedure DFwd_ACN_Encode_aux(val : DFwd; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DFwd_h_n:adaasn1rtl.Asn1UInt;
    DFwd_h_n_is_initialized:Boolean:=False;
    DFwd_h_f:adaasn1rtl.Asn1Boolean;
    DFwd_h_f_is_initialized:Boolean:=False;
begin
    result := DFwd_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DFwd_h_n_is_initialized := True;
            DFwd_h_n := adaasn1rtl.Asn1UInt(val.l.l2.l3.o.Length);

            if result.Success then
                --Encode DFwd_h_n
                if DFwd_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DFwd_h_n, 7);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DFWD_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                DFwd_h_f_is_initialized := True;
                DFwd_h_f := (val.l.l2.p.exist.o = 1);
                if result.Success then
                    --Encode DFwd_h_f
                    if DFwd_h_f_is_initialized then
                        result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, DFwd_h_f);
                    else
                        result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DFWD_H_F_UNINITIALIZED); --COVERAGE_IGNORE
                    end if;
                end if;
                if result.Success then
                    -- Encode e
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
                end if;
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.m, 0, 3);
            if result.Success then
                -- Encode l
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.l.x);
                if result.Success then
                    -- Encode l2
                    -- Encode l3
                    -- Encode z
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.l.l2.l3.z, 0, 2);
                    if result.Success then
                        -- Encode o
                        adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.l.l2.l3.o.Data, Integer(val.l.l2.l3.o.Length));
                    end if;
                    if result.Success then
                        -- Encode p
                        -- Encode x
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.l.l2.p.x, 0, 3);
                        if result.Success then
                            -- Encode o
                            if val.l.l2.p.Exist.o = 1 then
                            	adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, val.l.l2.p.o);
                            end if;
                            if result.Success then
                                -- Encode z
                                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.l.l2.p.z);
                            end if;
                        end if;
                    end if;
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.l.y, 0, 3);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    P8_ACN_Encode_aux(val.t, bs, result);
                end if;
            end if;
        end if;
    end if;
end DFwd_ACN_Encode_aux;
procedure DFwd_ACN_Encode(val : DFwd; Stream : out DFwd_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DFwd_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DFwd_ACN_Encode_aux directly).
    Stream := DFwd_ACN_Stream'(Size_In_Bytes => DFwd_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DFwd_ACN_Encode_aux(val, Stream, result); 
end DFwd_ACN_Encode; 

procedure DFwd_ACN_Decode_aux(val:out DFwd; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DFwd_h_n:adaasn1rtl.Asn1UInt;
    DFwd_h_f:adaasn1rtl.Asn1Boolean;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DFWD_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DFwd_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DFwd_h_n, 0, 127, 7, result);
        result.ErrorCode := ERR_ACN_DECODE_DFWD_H_N;

        if result.Success then
            -- Decode DFwd_h_f
            result.ErrorCode := ERR_ACN_DECODE_DFWD_H_F;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, DFwd_h_f, result.Success);
            if result.Success then
                -- Decode e
                result.ErrorCode := ERR_ACN_DECODE_DFWD_H_E;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
            end if;
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DFWD_M;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.m, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode l
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DFWD_L_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.l.x, result.Success);
            if result.Success then
                -- Decode l2
                -- Decode l3
                -- Decode z
                result.ErrorCode := ERR_ACN_DECODE_DFWD_L_L2_L3_Z;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.l.l2.l3.z, 0, 3, 2, result.Success);
                if result.Success then
                    -- Decode o
                    result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DFwd_h_n AND DFwd_h_n<=25, ErrorCode => ERR_ACN_DECODE_DFWD_L_L2_L3_O);
                    if result.Success then
                        val.l.l2.l3.o.Length := Integer(DFwd_h_n);
                        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.l.l2.l3.o.Data, Integer(val.l.l2.l3.o.Length), result.success);
                    end if;
                end if;
                if result.Success then
                    -- Decode p
                    -- Decode x
                    result.ErrorCode := ERR_ACN_DECODE_DFWD_L_L2_P_X;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.l.l2.p.x, 0, 7, 3, result.Success);
                    if result.Success then
                        val.l.l2.p.Exist.o := (if DFwd_h_f then 1 else 0);
                        result.Success := true;
                        -- Decode o
                        if val.l.l2.p.Exist.o = 1 then
                        	adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, val.l.l2.p.o, 0, 255, result);
                        	result.ErrorCode := ERR_ACN_DECODE_DFWD_L_L2_P_O;

                        end if;
                        if result.Success then
                            -- Decode z
                            result.ErrorCode := ERR_ACN_DECODE_DFWD_L_L2_P_Z;
                            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.l.l2.p.z, result.Success);
                        end if;
                    end if;
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DFWD_L_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.l.y, 0, 7, 3, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                P8_ACN_Decode_aux(val.t, bs, result);
            end if;
        end if;
    end if;
end DFwd_ACN_Decode_aux;
PROCEDURE DFwd_ACN_Decode(val: out DFwd; Stream : in out DFwd_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DFwd_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DFwd_IsConstraintValid(val);
    end if;

end DFwd_ACN_Decode; 



function SB_s_Equal (val1, val2 :  SB_s) return Boolean
is

begin
	return val1 = val2;

end SB_s_Equal;

function SB_y_Equal (val1, val2 :  SB_y) return Boolean
is

begin
	return val1 = val2;

end SB_y_Equal;

function SB_Equal (val1, val2 :  SB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.x = val2.x);

    if ret then
        ret := SB_s_Equal(val1.s, val2.s);

        if ret then
            ret := SB_y_Equal(val1.y, val2.y);

        end if;
    end if;
	return ret;

end SB_Equal;

function SB_s_IsConstraintValid(val : SB_s) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 12);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SB_S);
    return ret;
end SB_s_IsConstraintValid;

function SB_y_IsConstraintValid(val : SB_y) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SB_Y);
    return ret;
end SB_y_IsConstraintValid;

function SB_IsConstraintValid(val : SB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := SB_s_IsConstraintValid(val.s);
    if ret.Success then
        ret := SB_y_IsConstraintValid(val.y);
    end if;
    return ret;
end SB_IsConstraintValid;







function DW8_t_Equal (val1, val2 :  DW8_t) return Boolean
is

begin
	return val1 = val2;

end DW8_t_Equal;

function DW8_Equal (val1, val2 :  DW8) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := SB_Equal(val1.b, val2.b);

            if ret then
                ret := DW8_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW8_Equal;

function DW8_t_IsConstraintValid(val : DW8_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW8_T);
    return ret;
end DW8_t_IsConstraintValid;

function DW8_IsConstraintValid(val : DW8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := SB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW8_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW8_IsConstraintValid;




procedure DW8_ACN_Encode_aux(val : DW8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW8_h_n:adaasn1rtl.Asn1UInt;
    DW8_h_n_is_initialized:Boolean:=False;
begin
    result := DW8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW8_h_n_is_initialized := True;
            DW8_h_n := adaasn1rtl.Asn1UInt(adaasn1rtl.getStringSize(val.b.s));
            result.success := DW8_h_n >= 0 and DW8_h_n <= 12;

            if result.Success then
                --Encode DW8_h_n
                if DW8_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DW8_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW8_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, val.b.s);
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW8_ACN_Encode_aux;
procedure DW8_ACN_Encode(val : DW8; Stream : out DW8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW8_ACN_Encode_aux directly).
    Stream := DW8_ACN_Stream'(Size_In_Bytes => DW8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW8_ACN_Encode_aux(val, Stream, result); 
end DW8_ACN_Encode; 

procedure DW8_ACN_Decode_aux(val:out DW8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW8_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW8_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW8_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DW8_h_n, 0, 255, result);
        result.ErrorCode := ERR_ACN_DECODE_DW8_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW8_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW8_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW8_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, adaasn1rtl.Asn1Int(DW8_h_n), val.b.s, result);
                result.ErrorCode := ERR_ACN_DECODE_DW8_B_S;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW8_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW8_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW8_ACN_Decode_aux;
PROCEDURE DW8_ACN_Decode(val: out DW8; Stream : in out DW8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW8_IsConstraintValid(val);
    end if;

end DW8_ACN_Decode; 



function DW32_t_Equal (val1, val2 :  DW32_t) return Boolean
is

begin
	return val1 = val2;

end DW32_t_Equal;

function DW32_Equal (val1, val2 :  DW32) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := SB_Equal(val1.b, val2.b);

            if ret then
                ret := DW32_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW32_Equal;

function DW32_t_IsConstraintValid(val : DW32_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW32_T);
    return ret;
end DW32_t_IsConstraintValid;

function DW32_IsConstraintValid(val : DW32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := SB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW32_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW32_IsConstraintValid;




procedure DW32_ACN_Encode_aux(val : DW32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW32_h_n:adaasn1rtl.Asn1UInt;
    DW32_h_n_is_initialized:Boolean:=False;
begin
    result := DW32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW32_h_n_is_initialized := True;
            DW32_h_n := adaasn1rtl.Asn1UInt(adaasn1rtl.getStringSize(val.b.s));
            result.success := DW32_h_n >= 0 and DW32_h_n <= 12;

            if result.Success then
                --Encode DW32_h_n
                if DW32_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(bs, DW32_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW32_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, val.b.s);
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW32_ACN_Encode_aux;
procedure DW32_ACN_Encode(val : DW32; Stream : out DW32_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW32_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW32_ACN_Encode_aux directly).
    Stream := DW32_ACN_Stream'(Size_In_Bytes => DW32_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW32_ACN_Encode_aux(val, Stream, result); 
end DW32_ACN_Encode; 

procedure DW32_ACN_Decode_aux(val:out DW32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW32_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW32_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW32_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(bs, DW32_h_n, 0, 4294967295, result);
        result.ErrorCode := ERR_ACN_DECODE_DW32_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW32_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW32_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW32_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, adaasn1rtl.Asn1Int(DW32_h_n), val.b.s, result);
                result.ErrorCode := ERR_ACN_DECODE_DW32_B_S;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW32_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW32_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW32_ACN_Decode_aux;
PROCEDURE DW32_ACN_Decode(val: out DW32; Stream : in out DW32_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW32_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW32_IsConstraintValid(val);
    end if;

end DW32_ACN_Decode; 



function DI8_t_Equal (val1, val2 :  DI8_t) return Boolean
is

begin
	return val1 = val2;

end DI8_t_Equal;

function DI8_Equal (val1, val2 :  DI8) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := SB_Equal(val1.b, val2.b);

            if ret then
                ret := DI8_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DI8_Equal;

function DI8_t_IsConstraintValid(val : DI8_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DI8_T);
    return ret;
end DI8_t_IsConstraintValid;

function DI8_IsConstraintValid(val : DI8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := SB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DI8_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DI8_IsConstraintValid;




procedure DI8_ACN_Encode_aux(val : DI8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI8_h_n:adaasn1rtl.Asn1Int;
    DI8_h_n_is_initialized:Boolean:=False;
begin
    result := DI8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DI8_h_n_is_initialized := True;
            DI8_h_n := adaasn1rtl.Asn1Int(adaasn1rtl.getStringSize(val.b.s));
            result.success := DI8_h_n >= 0 and DI8_h_n <= 12;

            if result.Success then
                --Encode DI8_h_n
                if DI8_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_8(bs, DI8_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DI8_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, val.b.s);
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DI8_ACN_Encode_aux;
procedure DI8_ACN_Encode(val : DI8; Stream : out DI8_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DI8_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DI8_ACN_Encode_aux directly).
    Stream := DI8_ACN_Stream'(Size_In_Bytes => DI8_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DI8_ACN_Encode_aux(val, Stream, result); 
end DI8_ACN_Encode; 

procedure DI8_ACN_Decode_aux(val:out DI8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI8_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DI8_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DI8_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_8(bs, DI8_h_n, -128, 127, result);
        result.ErrorCode := ERR_ACN_DECODE_DI8_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DI8_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DI8_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DI8_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, adaasn1rtl.Asn1Int(DI8_h_n), val.b.s, result);
                result.ErrorCode := ERR_ACN_DECODE_DI8_B_S;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DI8_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DI8_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DI8_ACN_Decode_aux;
PROCEDURE DI8_ACN_Decode(val: out DI8; Stream : in out DI8_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DI8_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DI8_IsConstraintValid(val);
    end if;

end DI8_ACN_Decode; 



function DI64_t_Equal (val1, val2 :  DI64_t) return Boolean
is

begin
	return val1 = val2;

end DI64_t_Equal;

function DI64_Equal (val1, val2 :  DI64) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := SB_Equal(val1.b, val2.b);

            if ret then
                ret := DI64_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DI64_Equal;

function DI64_t_IsConstraintValid(val : DI64_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DI64_T);
    return ret;
end DI64_t_IsConstraintValid;

function DI64_IsConstraintValid(val : DI64) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := SB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DI64_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DI64_IsConstraintValid;




procedure DI64_ACN_Encode_aux(val : DI64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI64_h_n:adaasn1rtl.Asn1Int;
    DI64_h_n_is_initialized:Boolean:=False;
begin
    result := DI64_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DI64_h_n_is_initialized := True;
            DI64_h_n := adaasn1rtl.Asn1Int(adaasn1rtl.getStringSize(val.b.s));
            result.success := DI64_h_n >= 0 and DI64_h_n <= 12;

            if result.Success then
                --Encode DI64_h_n
                if DI64_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(bs, DI64_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DI64_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, val.b.s);
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DI64_ACN_Encode_aux;
procedure DI64_ACN_Encode(val : DI64; Stream : out DI64_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DI64_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DI64_ACN_Encode_aux directly).
    Stream := DI64_ACN_Stream'(Size_In_Bytes => DI64_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DI64_ACN_Encode_aux(val, Stream, result); 
end DI64_ACN_Encode; 

procedure DI64_ACN_Decode_aux(val:out DI64; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI64_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DI64_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DI64_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(bs, DI64_h_n, -9223372036854775808, 9223372036854775807, result);
        result.ErrorCode := ERR_ACN_DECODE_DI64_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DI64_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DI64_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DI64_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, adaasn1rtl.Asn1Int(DI64_h_n), val.b.s, result);
                result.ErrorCode := ERR_ACN_DECODE_DI64_B_S;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DI64_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DI64_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DI64_ACN_Decode_aux;
PROCEDURE DI64_ACN_Decode(val: out DI64; Stream : in out DI64_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DI64_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DI64_IsConstraintValid(val);
    end if;

end DI64_ACN_Decode; 



function DSh_t_Equal (val1, val2 :  DSh_t) return Boolean
is

begin
	return val1 = val2;

end DSh_t_Equal;

function DSh_Equal (val1, val2 :  DSh) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := OB_Equal(val1.b, val2.b);

        if ret then
            ret := (val1.m = val2.m);

            if ret then
                ret := SB_Equal(val1.c, val2.c);

                if ret then
                    ret := DSh_t_Equal(val1.t, val2.t);

                end if;
            end if;
        end if;
    end if;
	return ret;

end DSh_Equal;

function DSh_t_IsConstraintValid(val : DSh_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSH_T);
    return ret;
end DSh_t_IsConstraintValid;

function DSh_IsConstraintValid(val : DSh) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB_IsConstraintValid(val.b);
        if ret.Success then
            ret := SB_IsConstraintValid(val.c);
            if ret.Success then
                ret := DSh_t_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end DSh_IsConstraintValid;




procedure DSh_ACN_Encode_aux(val : DSh; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DSh_h_n:adaasn1rtl.Asn1UInt;
    DSh_h_n_is_initialized:Boolean:=False;
begin
    result := DSh_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            declare
                DSh_h_n00:adaasn1rtl.Asn1UInt;
                DSh_h_n00_is_initialized:Boolean:=False;
                DSh_h_n01:adaasn1rtl.Asn1UInt;
                DSh_h_n01_is_initialized:Boolean:=False;
            begin

                DSh_h_n00_is_initialized := True;
                DSh_h_n00 := adaasn1rtl.Asn1UInt(adaasn1rtl.getStringSize(val.c.s));
                result.success := DSh_h_n00 >= 0 and DSh_h_n00 <= 12;

                DSh_h_n01_is_initialized := True;
                DSh_h_n01 := adaasn1rtl.Asn1UInt(val.b.Length);


                if DSh_h_n00_is_initialized then		--COVERAGE_IGNORE
                    DSh_h_n := DSh_h_n00;													--COVERAGE_IGNORE
                elsif DSh_h_n01_is_initialized then		--COVERAGE_IGNORE
                    DSh_h_n := DSh_h_n01;													--COVERAGE_IGNORE
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_UPDATE_DSH_H_N);		--COVERAGE_IGNORE
                end if;

                result := adaasn1rtl.ASN1_RESULT'(Success => result.Success and (((DSh_h_n00_is_initialized and DSh_h_n = DSh_h_n00) or not DSh_h_n00_is_initialized) and ((DSh_h_n01_is_initialized and DSh_h_n = DSh_h_n01) or not DSh_h_n01_is_initialized)), ErrorCode => ERR_ACN_ENCODE_UPDATE_DSH_H_N);
                DSh_h_n_is_initialized := result.Success;
            end;
            if result.Success then
                --Encode DSh_h_n
                if DSh_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DSh_h_n, 5);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSH_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
            if result.Success then
                -- Encode m
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
                if result.Success then
                    -- Encode c
                    -- Encode x
                    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.c.x);
                    if result.Success then
                        -- Encode s
                        adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, val.c.s);
                        if result.Success then
                            -- Encode y
                            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.c.y, 0, 2);
                        end if;
                    end if;
                    if result.Success then
                        -- Encode t
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                    end if;
                end if;
            end if;
        end if;
    end if;
end DSh_ACN_Encode_aux;
procedure DSh_ACN_Encode(val : DSh; Stream : out DSh_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DSh_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DSh_ACN_Encode_aux directly).
    Stream := DSh_ACN_Stream'(Size_In_Bytes => DSh_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DSh_ACN_Encode_aux(val, Stream, result); 
end DSh_ACN_Encode; 

procedure DSh_ACN_Decode_aux(val:out DSh; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DSh_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DSH_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DSh_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DSh_h_n, 0, 31, 5, result);
        result.ErrorCode := ERR_ACN_DECODE_DSH_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DSH_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => DSh_h_n<=25, ErrorCode => ERR_ACN_DECODE_DSH_B);
        if result.Success then
            val.b.Length := Integer(DSh_h_n);
            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
        end if;
        if result.Success then
            -- Decode m
            result.ErrorCode := ERR_ACN_DECODE_DSH_M;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
            if result.Success then
                -- Decode c
                -- Decode x
                result.ErrorCode := ERR_ACN_DECODE_DSH_C_X;
                adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.c.x, result.Success);
                if result.Success then
                    -- Decode s
                    adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, SB_s_alpha_set, 7, adaasn1rtl.Asn1Int(DSh_h_n), val.c.s, result);
                    result.ErrorCode := ERR_ACN_DECODE_DSH_C_S;
                    if result.Success then
                        -- Decode y
                        result.ErrorCode := ERR_ACN_DECODE_DSH_C_Y;
                        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.c.y, 0, 3, 2, result.Success);
                    end if;
                end if;
                if result.Success then
                    -- Decode t
                    result.ErrorCode := ERR_ACN_DECODE_DSH_T;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
                end if;
            end if;
        end if;
    end if;
end DSh_ACN_Decode_aux;
PROCEDURE DSh_ACN_Decode(val: out DSh; Stream : in out DSh_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DSh_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DSh_IsConstraintValid(val);
    end if;

end DSh_ACN_Decode; 



function BB_s_Equal (val1, val2 :  BB_s) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BB_s_Equal;

function BB_y_Equal (val1, val2 :  BB_y) return Boolean
is

begin
	return val1 = val2;

end BB_y_Equal;

function BB_Equal (val1, val2 :  BB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.x = val2.x);

    if ret then
        ret := BB_s_Equal(val1.s, val2.s);

        if ret then
            ret := BB_y_Equal(val1.y, val2.y);

        end if;
    end if;
	return ret;

end BB_Equal;

function BB_s_IsConstraintValid(val : BB_s) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 61);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BB_S);
    return ret;
end BB_s_IsConstraintValid;

function BB_y_IsConstraintValid(val : BB_y) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BB_Y);
    return ret;
end BB_y_IsConstraintValid;

function BB_IsConstraintValid(val : BB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := BB_s_IsConstraintValid(val.s);
    if ret.Success then
        ret := BB_y_IsConstraintValid(val.y);
    end if;
    return ret;
end BB_IsConstraintValid;







function DW12_t_Equal (val1, val2 :  DW12_t) return Boolean
is

begin
	return val1 = val2;

end DW12_t_Equal;

function DW12_Equal (val1, val2 :  DW12) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := BB_Equal(val1.b, val2.b);

            if ret then
                ret := DW12_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW12_Equal;

function DW12_t_IsConstraintValid(val : DW12_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW12_T);
    return ret;
end DW12_t_IsConstraintValid;

function DW12_IsConstraintValid(val : DW12) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := BB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW12_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW12_IsConstraintValid;




procedure DW12_ACN_Encode_aux(val : DW12; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW12_h_n:adaasn1rtl.Asn1UInt;
    DW12_h_n_is_initialized:Boolean:=False;
begin
    result := DW12_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW12_h_n_is_initialized := True;
            DW12_h_n := adaasn1rtl.Asn1UInt(val.b.s.Length);

            if result.Success then
                --Encode DW12_h_n
                if DW12_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize(bs, DW12_h_n, 12);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW12_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.b.s.Data, Integer(DW12_h_n));
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW12_ACN_Encode_aux;
procedure DW12_ACN_Encode(val : DW12; Stream : out DW12_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW12_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW12_ACN_Encode_aux directly).
    Stream := DW12_ACN_Stream'(Size_In_Bytes => DW12_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW12_ACN_Encode_aux(val, Stream, result); 
end DW12_ACN_Encode; 

procedure DW12_ACN_Decode_aux(val:out DW12; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW12_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW12_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW12_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize(bs, DW12_h_n, 0, 4095, 12, result);
        result.ErrorCode := ERR_ACN_DECODE_DW12_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW12_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW12_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW12_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => DW12_h_n<=61, ErrorCode => ERR_ACN_DECODE_DW12_B_S);
                if result.Success then
                   val.b.s.Length := Integer(DW12_h_n);
                    adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.b.s.Data, Integer(DW12_h_n), result.success);
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW12_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW12_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW12_ACN_Decode_aux;
PROCEDURE DW12_ACN_Decode(val: out DW12; Stream : in out DW12_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW12_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW12_IsConstraintValid(val);
    end if;

end DW12_ACN_Decode; 



function DW32L_t_Equal (val1, val2 :  DW32L_t) return Boolean
is

begin
	return val1 = val2;

end DW32L_t_Equal;

function DW32L_Equal (val1, val2 :  DW32L) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := BB_Equal(val1.b, val2.b);

            if ret then
                ret := DW32L_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DW32L_Equal;

function DW32L_t_IsConstraintValid(val : DW32L_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DW32L_T);
    return ret;
end DW32L_t_IsConstraintValid;

function DW32L_IsConstraintValid(val : DW32L) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := BB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DW32L_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DW32L_IsConstraintValid;




procedure DW32L_ACN_Encode_aux(val : DW32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW32L_h_n:adaasn1rtl.Asn1UInt;
    DW32L_h_n_is_initialized:Boolean:=False;
begin
    result := DW32L_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DW32L_h_n_is_initialized := True;
            DW32L_h_n := adaasn1rtl.Asn1UInt(val.b.s.Length);

            if result.Success then
                --Encode DW32L_h_n
                if DW32L_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(bs, DW32L_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DW32L_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.b.s.Data, Integer(DW32L_h_n));
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DW32L_ACN_Encode_aux;
procedure DW32L_ACN_Encode(val : DW32L; Stream : out DW32L_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DW32L_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DW32L_ACN_Encode_aux directly).
    Stream := DW32L_ACN_Stream'(Size_In_Bytes => DW32L_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DW32L_ACN_Encode_aux(val, Stream, result); 
end DW32L_ACN_Encode; 

procedure DW32L_ACN_Decode_aux(val:out DW32L; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DW32L_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DW32L_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DW32L_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(bs, DW32L_h_n, 0, 4294967295,  result);
        result.ErrorCode := ERR_ACN_DECODE_DW32L_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DW32L_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DW32L_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DW32L_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => DW32L_h_n<=61, ErrorCode => ERR_ACN_DECODE_DW32L_B_S);
                if result.Success then
                   val.b.s.Length := Integer(DW32L_h_n);
                    adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.b.s.Data, Integer(DW32L_h_n), result.success);
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DW32L_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DW32L_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DW32L_ACN_Decode_aux;
PROCEDURE DW32L_ACN_Decode(val: out DW32L; Stream : in out DW32L_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DW32L_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DW32L_IsConstraintValid(val);
    end if;

end DW32L_ACN_Decode; 



function DI16_t_Equal (val1, val2 :  DI16_t) return Boolean
is

begin
	return val1 = val2;

end DI16_t_Equal;

function DI16_Equal (val1, val2 :  DI16) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := BB_Equal(val1.b, val2.b);

            if ret then
                ret := DI16_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DI16_Equal;

function DI16_t_IsConstraintValid(val : DI16_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DI16_T);
    return ret;
end DI16_t_IsConstraintValid;

function DI16_IsConstraintValid(val : DI16) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := BB_IsConstraintValid(val.b);
        if ret.Success then
            ret := DI16_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DI16_IsConstraintValid;




procedure DI16_ACN_Encode_aux(val : DI16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI16_h_n:adaasn1rtl.Asn1Int;
    DI16_h_n_is_initialized:Boolean:=False;
begin
    result := DI16_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DI16_h_n_is_initialized := True;
            DI16_h_n := adaasn1rtl.Asn1Int(val.b.s.Length);

            if result.Success then
                --Encode DI16_h_n
                if DI16_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(bs, DI16_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DI16_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                -- Encode x
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
                if result.Success then
                    -- Encode s
                    adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.b.s.Data, Integer(DI16_h_n));
                    if result.Success then
                        -- Encode y
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                    end if;
                end if;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DI16_ACN_Encode_aux;
procedure DI16_ACN_Encode(val : DI16; Stream : out DI16_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DI16_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DI16_ACN_Encode_aux directly).
    Stream := DI16_ACN_Stream'(Size_In_Bytes => DI16_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DI16_ACN_Encode_aux(val, Stream, result); 
end DI16_ACN_Encode; 

procedure DI16_ACN_Decode_aux(val:out DI16; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DI16_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DI16_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DI16_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(bs, DI16_h_n, -32768, 32767, result);
        result.ErrorCode := ERR_ACN_DECODE_DI16_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DI16_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DI16_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            -- Decode x
            result.ErrorCode := ERR_ACN_DECODE_DI16_B_X;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
            if result.Success then
                -- Decode s
                result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DI16_h_n AND DI16_h_n<=61, ErrorCode => ERR_ACN_DECODE_DI16_B_S);
                if result.Success then
                   val.b.s.Length := Integer(DI16_h_n);
                    adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.b.s.Data, Integer(DI16_h_n), result.success);
                end if;
                if result.Success then
                    -- Decode y
                    result.ErrorCode := ERR_ACN_DECODE_DI16_B_Y;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
                end if;
            end if;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DI16_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DI16_ACN_Decode_aux;
PROCEDURE DI16_ACN_Decode(val: out DI16; Stream : in out DI16_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DI16_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DI16_IsConstraintValid(val);
    end if;

end DI16_ACN_Decode; 



function DShQ_t_Equal (val1, val2 :  DShQ_t) return Boolean
is

begin
	return val1 = val2;

end DShQ_t_Equal;

function DShQ_Equal (val1, val2 :  DShQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := QB_Equal(val1.b, val2.b);

        if ret then
            ret := (val1.m = val2.m);

            if ret then
                ret := BB_Equal(val1.c, val2.c);

                if ret then
                    ret := OB_Equal(val1.d, val2.d);

                    if ret then
                        ret := DShQ_t_Equal(val1.t, val2.t);

                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end DShQ_Equal;

function DShQ_t_IsConstraintValid(val : DShQ_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DSHQ_T);
    return ret;
end DShQ_t_IsConstraintValid;

function DShQ_IsConstraintValid(val : DShQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := QB_IsConstraintValid(val.b);
        if ret.Success then
            ret := BB_IsConstraintValid(val.c);
            if ret.Success then
                ret := OB_IsConstraintValid(val.d);
                if ret.Success then
                    ret := DShQ_t_IsConstraintValid(val.t);
                end if;
            end if;
        end if;
    end if;
    return ret;
end DShQ_IsConstraintValid;




procedure DShQ_ACN_Encode_aux(val : DShQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShQ_h_n:adaasn1rtl.Asn1UInt;
    DShQ_h_n_is_initialized:Boolean:=False;
    i1:Integer;
begin
    result := DShQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            declare
                DShQ_h_n00:adaasn1rtl.Asn1UInt;
                DShQ_h_n00_is_initialized:Boolean:=False;
                DShQ_h_n01:adaasn1rtl.Asn1UInt;
                DShQ_h_n01_is_initialized:Boolean:=False;
                DShQ_h_n02:adaasn1rtl.Asn1UInt;
                DShQ_h_n02_is_initialized:Boolean:=False;
            begin

                DShQ_h_n00_is_initialized := True;
                DShQ_h_n00 := adaasn1rtl.Asn1UInt(val.d.Length);

                DShQ_h_n01_is_initialized := True;
                DShQ_h_n01 := adaasn1rtl.Asn1UInt(val.c.s.Length);

                DShQ_h_n02_is_initialized := True;
                DShQ_h_n02 := adaasn1rtl.Asn1UInt(val.b.s.Length);


                if DShQ_h_n00_is_initialized then		--COVERAGE_IGNORE
                    DShQ_h_n := DShQ_h_n00;													--COVERAGE_IGNORE
                elsif DShQ_h_n01_is_initialized then		--COVERAGE_IGNORE
                    DShQ_h_n := DShQ_h_n01;													--COVERAGE_IGNORE
                elsif DShQ_h_n02_is_initialized then		--COVERAGE_IGNORE
                    DShQ_h_n := DShQ_h_n02;													--COVERAGE_IGNORE
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHQ_H_N);		--COVERAGE_IGNORE
                end if;

                result := adaasn1rtl.ASN1_RESULT'(Success => result.Success and (((DShQ_h_n00_is_initialized and DShQ_h_n = DShQ_h_n00) or not DShQ_h_n00_is_initialized) and ((DShQ_h_n01_is_initialized and DShQ_h_n = DShQ_h_n01) or not DShQ_h_n01_is_initialized) and ((DShQ_h_n02_is_initialized and DShQ_h_n = DShQ_h_n02) or not DShQ_h_n02_is_initialized)), ErrorCode => ERR_ACN_ENCODE_UPDATE_DSHQ_H_N);
                DShQ_h_n_is_initialized := result.Success;
            end;
            if result.Success then
                --Encode DShQ_h_n
                if DShQ_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(bs, DShQ_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DSHQ_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            -- Encode x
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.b.x);
            if result.Success then
                -- Encode s
                i1 := 1;
                while i1<= val.b.s.Length loop
                    pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                    pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                    pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                    P5_ACN_Encode_aux(val.b.s.Data(i1), bs, result);
                    i1 := i1 + 1;
                end loop;
                if result.Success then
                    -- Encode y
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.b.y, 0, 2);
                end if;
            end if;
            if result.Success then
                -- Encode m
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
                if result.Success then
                    -- Encode c
                    -- Encode x
                    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.c.x);
                    if result.Success then
                        -- Encode s
                        adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.c.s.Data, Integer(DShQ_h_n));
                        if result.Success then
                            -- Encode y
                            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.c.y, 0, 2);
                        end if;
                    end if;
                    if result.Success then
                        -- Encode d
                        adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.d.Data, Integer(val.d.Length));
                        if result.Success then
                            -- Encode t
                            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DShQ_ACN_Encode_aux;
procedure DShQ_ACN_Encode(val : DShQ; Stream : out DShQ_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DShQ_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DShQ_ACN_Encode_aux directly).
    Stream := DShQ_ACN_Stream'(Size_In_Bytes => DShQ_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DShQ_ACN_Encode_aux(val, Stream, result); 
end DShQ_ACN_Encode; 

procedure DShQ_ACN_Decode_aux(val:out DShQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DShQ_h_n:adaasn1rtl.Asn1UInt;
    i1:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DSHQ_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DShQ_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(bs, DShQ_h_n, 0, 65535, result);
        result.ErrorCode := ERR_ACN_DECODE_DSHQ_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DSHQ_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        -- Decode x
        result.ErrorCode := ERR_ACN_DECODE_DSHQ_B_X;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.b.x, result.Success);
        if result.Success then
            -- Decode s
            result := adaasn1rtl.ASN1_RESULT'(Success => DShQ_h_n<=9, ErrorCode => ERR_ACN_DECODE_DSHQ_B_S);
            if result.Success then
                val.b.s.Length := Integer(DShQ_h_n);
                i1 := 1;
                while i1<= val.b.s.Length AND result.Success loop
                    pragma Loop_Invariant (i1 >=1 and i1<=val.b.s.Length);
                    pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                    pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
                    P5_ACN_Decode_aux(val.b.s.Data(i1), bs, result);
                    i1 := i1 + 1;
                end loop;
            end if;
            if result.Success then
                -- Decode y
                result.ErrorCode := ERR_ACN_DECODE_DSHQ_B_Y;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.b.y, 0, 3, 2, result.Success);
            end if;
        end if;
        if result.Success then
            -- Decode m
            result.ErrorCode := ERR_ACN_DECODE_DSHQ_M;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
            if result.Success then
                -- Decode c
                -- Decode x
                result.ErrorCode := ERR_ACN_DECODE_DSHQ_C_X;
                adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.c.x, result.Success);
                if result.Success then
                    -- Decode s
                    result := adaasn1rtl.ASN1_RESULT'(Success => DShQ_h_n<=61, ErrorCode => ERR_ACN_DECODE_DSHQ_C_S);
                    if result.Success then
                       val.c.s.Length := Integer(DShQ_h_n);
                        adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.c.s.Data, Integer(DShQ_h_n), result.success);
                    end if;
                    if result.Success then
                        -- Decode y
                        result.ErrorCode := ERR_ACN_DECODE_DSHQ_C_Y;
                        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.c.y, 0, 3, 2, result.Success);
                    end if;
                end if;
                if result.Success then
                    -- Decode d
                    result := adaasn1rtl.ASN1_RESULT'(Success => DShQ_h_n<=25, ErrorCode => ERR_ACN_DECODE_DSHQ_D);
                    if result.Success then
                        val.d.Length := Integer(DShQ_h_n);
                        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.d.Data, Integer(val.d.Length), result.success);
                    end if;
                    if result.Success then
                        -- Decode t
                        result.ErrorCode := ERR_ACN_DECODE_DSHQ_T;
                        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
                    end if;
                end if;
            end if;
        end if;
    end if;
end DShQ_ACN_Decode_aux;
PROCEDURE DShQ_ACN_Decode(val: out DShQ; Stream : in out DShQ_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DShQ_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DShQ_IsConstraintValid(val);
    end if;

end DShQ_ACN_Decode; 



function Len2_Equal (val1, val2 :  Len2) return Boolean
is

begin
	return val1 = val2;

end Len2_Equal;

function Len2_IsConstraintValid(val : Len2) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((2 <= val) AND (val <= 20));
    ret.ErrorCode := (if ret.Success then 0 else ERR_LEN2);
    return ret;
end Len2_IsConstraintValid;



procedure Len2_ACN_Encode_aux(val : Len2; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Len2_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 2, 5);
    end if;
end Len2_ACN_Encode_aux;
procedure Len2_ACN_Encode(val : Len2; Stream : out Len2_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Len2_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Len2_ACN_Encode_aux directly).
    Stream := Len2_ACN_Stream'(Size_In_Bytes => Len2_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Len2_ACN_Encode_aux(val, Stream, result); 
end Len2_ACN_Encode; 

procedure Len2_ACN_Decode_aux(val:out Len2; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_LEN2;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 2, 20, 5, result.Success);
end Len2_ACN_Decode_aux;
PROCEDURE Len2_ACN_Decode(val: out Len2; Stream : in out Len2_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Len2_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Len2_IsConstraintValid(val);
    end if;

end Len2_ACN_Decode; 



function OBM_Equal (val1, val2 :  OBM) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OBM_Equal;

function OBM_IsConstraintValid(val : OBM) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((2 <= val.Length) AND (val.Length <= 20));
    ret.ErrorCode := (if ret.Success then 0 else ERR_OBM);
    return ret;
end OBM_IsConstraintValid;





function DUp_t_Equal (val1, val2 :  DUp_t) return Boolean
is

begin
	return val1 = val2;

end DUp_t_Equal;

function DUp_Equal (val1, val2 :  DUp) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := OBM_Equal(val1.b, val2.b);

        if ret then
            ret := DUp_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DUp_Equal;

function DUp_t_IsConstraintValid(val : DUp_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DUP_T);
    return ret;
end DUp_t_IsConstraintValid;

function DUp_IsConstraintValid(val : DUp) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OBM_IsConstraintValid(val.b);
        if ret.Success then
            ret := DUp_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DUp_IsConstraintValid;




procedure DUp_ACN_Encode_aux(val : DUp; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DUp_h_n:adaasn1rtl.Asn1UInt;
    DUp_h_n_is_initialized:Boolean:=False;
begin
    result := DUp_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DUp_h_n_is_initialized := True;
            DUp_h_n := adaasn1rtl.Asn1UInt(val.b.Length);

            if result.Success then
                --Encode DUp_h_n
                if DUp_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, DUp_h_n, 2, 5);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DUP_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DUp_ACN_Encode_aux;
procedure DUp_ACN_Encode(val : DUp; Stream : out DUp_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DUp_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DUp_ACN_Encode_aux directly).
    Stream := DUp_ACN_Stream'(Size_In_Bytes => DUp_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DUp_ACN_Encode_aux(val, Stream, result); 
end DUp_ACN_Encode; 

procedure DUp_ACN_Decode_aux(val:out DUp; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DUp_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DUP_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DUp_h_n
        result.ErrorCode := ERR_ACN_DECODE_DUP_H_N;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, DUp_h_n, 2, 20, 5, result.Success);
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DUP_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => 2<=DUp_h_n AND DUp_h_n<=20, ErrorCode => ERR_ACN_DECODE_DUP_B);
        if result.Success then
            val.b.Length := Integer(DUp_h_n);
            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DUP_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DUp_ACN_Decode_aux;
PROCEDURE DUp_ACN_Decode(val: out DUp; Stream : in out DUp_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DUp_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DUp_IsConstraintValid(val);
    end if;

end DUp_ACN_Decode; 



function Len3_Equal (val1, val2 :  Len3) return Boolean
is

begin
	return val1 = val2;

end Len3_Equal;

function Len3_IsConstraintValid(val : Len3) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_LEN3);
    return ret;
end Len3_IsConstraintValid;



procedure Len3_ACN_Encode_aux(val : Len3; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Len3_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 0, 5);
    end if;
end Len3_ACN_Encode_aux;
procedure Len3_ACN_Encode(val : Len3; Stream : out Len3_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Len3_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Len3_ACN_Encode_aux directly).
    Stream := Len3_ACN_Stream'(Size_In_Bytes => Len3_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Len3_ACN_Encode_aux(val, Stream, result); 
end Len3_ACN_Encode; 

procedure Len3_ACN_Decode_aux(val:out Len3; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_LEN3;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 0, 20, 5, result.Success);
end Len3_ACN_Decode_aux;
PROCEDURE Len3_ACN_Decode(val: out Len3; Stream : in out Len3_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Len3_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Len3_IsConstraintValid(val);
    end if;

end Len3_ACN_Decode; 



function OB3_Equal (val1, val2 :  OB3) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OB3_Equal;

function OB3_IsConstraintValid(val : OB3) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OB3);
    return ret;
end OB3_IsConstraintValid;





function DLn_t_Equal (val1, val2 :  DLn_t) return Boolean
is

begin
	return val1 = val2;

end DLn_t_Equal;

function DLn_Equal (val1, val2 :  DLn) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := OB3_Equal(val1.b, val2.b);

        if ret then
            ret := DLn_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DLn_Equal;

function DLn_t_IsConstraintValid(val : DLn_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DLN_T);
    return ret;
end DLn_t_IsConstraintValid;

function DLn_IsConstraintValid(val : DLn) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB3_IsConstraintValid(val.b);
        if ret.Success then
            ret := DLn_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DLn_IsConstraintValid;




procedure DLn_ACN_Encode_aux(val : DLn; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLn_h_n:adaasn1rtl.Asn1UInt;
    DLn_h_n_is_initialized:Boolean:=False;
begin
    result := DLn_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DLn_h_n_is_initialized := True;
            DLn_h_n := adaasn1rtl.Asn1UInt(val.b.Length);

            if result.Success then
                --Encode DLn_h_n
                if DLn_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, DLn_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DLN_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DLn_ACN_Encode_aux;
procedure DLn_ACN_Encode(val : DLn; Stream : out DLn_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DLn_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DLn_ACN_Encode_aux directly).
    Stream := DLn_ACN_Stream'(Size_In_Bytes => DLn_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DLn_ACN_Encode_aux(val, Stream, result); 
end DLn_ACN_Encode; 

procedure DLn_ACN_Decode_aux(val:out DLn; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLn_h_n:adaasn1rtl.Asn1UInt;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DLN_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DLn_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, DLn_h_n, 0, 20, result);
        result.ErrorCode := ERR_ACN_DECODE_DLN_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DLN_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => DLn_h_n<=20, ErrorCode => ERR_ACN_DECODE_DLN_B);
        if result.Success then
            val.b.Length := Integer(DLn_h_n);
            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DLN_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DLn_ACN_Decode_aux;
PROCEDURE DLn_ACN_Decode(val: out DLn; Stream : in out DLn_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DLn_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DLn_IsConstraintValid(val);
    end if;

end DLn_ACN_Decode; 



function Len4_Equal (val1, val2 :  Len4) return Boolean
is

begin
	return val1 = val2;

end Len4_Equal;

function Len4_IsConstraintValid(val : Len4) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-20 <= val) AND (val <= 20));
    ret.ErrorCode := (if ret.Success then 0 else ERR_LEN4);
    return ret;
end Len4_IsConstraintValid;



procedure Len4_ACN_Encode_aux(val : Len4; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Len4_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, val, -20, 6);
    end if;
end Len4_ACN_Encode_aux;
procedure Len4_ACN_Encode(val : Len4; Stream : out Len4_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to Len4_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke Len4_ACN_Encode_aux directly).
    Stream := Len4_ACN_Stream'(Size_In_Bytes => Len4_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    Len4_ACN_Encode_aux(val, Stream, result); 
end Len4_ACN_Encode; 

procedure Len4_ACN_Decode_aux(val:out Len4; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result.ErrorCode := ERR_ACN_DECODE_LEN4;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, val, -20, 20, 6, result.Success);
end Len4_ACN_Decode_aux;
PROCEDURE Len4_ACN_Decode(val: out Len4; Stream : in out Len4_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    Len4_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := Len4_IsConstraintValid(val);
    end if;

end Len4_ACN_Decode; 



function OB4_Equal (val1, val2 :  OB4) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OB4_Equal;

function OB4_IsConstraintValid(val : OB4) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OB4);
    return ret;
end OB4_IsConstraintValid;





function DLs_t_Equal (val1, val2 :  DLs_t) return Boolean
is

begin
	return val1 = val2;

end DLs_t_Equal;

function DLs_Equal (val1, val2 :  DLs) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := OB4_Equal(val1.b, val2.b);

        if ret then
            ret := DLs_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DLs_Equal;

function DLs_t_IsConstraintValid(val : DLs_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DLS_T);
    return ret;
end DLs_t_IsConstraintValid;

function DLs_IsConstraintValid(val : DLs) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := OB4_IsConstraintValid(val.b);
        if ret.Success then
            ret := DLs_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DLs_IsConstraintValid;




procedure DLs_ACN_Encode_aux(val : DLs; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLs_h_n:adaasn1rtl.Asn1Int;
    DLs_h_n_is_initialized:Boolean:=False;
begin
    result := DLs_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DLs_h_n_is_initialized := True;
            DLs_h_n := adaasn1rtl.Asn1Int(val.b.Length);

            if result.Success then
                --Encode DLs_h_n
                if DLs_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize_8(bs, DLs_h_n);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DLS_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DLs_ACN_Encode_aux;
procedure DLs_ACN_Encode(val : DLs; Stream : out DLs_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DLs_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DLs_ACN_Encode_aux directly).
    Stream := DLs_ACN_Stream'(Size_In_Bytes => DLs_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DLs_ACN_Encode_aux(val, Stream, result); 
end DLs_ACN_Encode; 

procedure DLs_ACN_Decode_aux(val:out DLs; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLs_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DLS_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DLs_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize_8(bs, DLs_h_n, -20, 20, result);
        result.ErrorCode := ERR_ACN_DECODE_DLS_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DLS_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DLs_h_n AND DLs_h_n<=20, ErrorCode => ERR_ACN_DECODE_DLS_B);
        if result.Success then
            val.b.Length := Integer(DLs_h_n);
            adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.Data, Integer(val.b.Length), result.success);
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DLS_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DLs_ACN_Decode_aux;
PROCEDURE DLs_ACN_Decode(val: out DLs; Stream : in out DLs_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DLs_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DLs_IsConstraintValid(val);
    end if;

end DLs_ACN_Decode; 



function BB3_Equal (val1, val2 :  BB3) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BB3_Equal;

function BB3_IsConstraintValid(val : BB3) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BB3);
    return ret;
end BB3_IsConstraintValid;





function DLb_t_Equal (val1, val2 :  DLb_t) return Boolean
is

begin
	return val1 = val2;

end DLb_t_Equal;

function DLb_Equal (val1, val2 :  DLb) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := BB3_Equal(val1.b, val2.b);

        if ret then
            ret := DLb_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end DLb_Equal;

function DLb_t_IsConstraintValid(val : DLb_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DLB_T);
    return ret;
end DLb_t_IsConstraintValid;

function DLb_IsConstraintValid(val : DLb) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := BB3_IsConstraintValid(val.b);
        if ret.Success then
            ret := DLb_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DLb_IsConstraintValid;




procedure DLb_ACN_Encode_aux(val : DLb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLb_h_n:adaasn1rtl.Asn1Int;
    DLb_h_n_is_initialized:Boolean:=False;
begin
    result := DLb_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            DLb_h_n_is_initialized := True;
            DLb_h_n := adaasn1rtl.Asn1Int(val.b.Length);

            if result.Success then
                --Encode DLb_h_n
                if DLb_h_n_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, DLb_h_n, 7);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DLB_H_N_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode b
            adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.b.Data, Integer(DLb_h_n));
            if result.Success then
                -- Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;
end DLb_ACN_Encode_aux;
procedure DLb_ACN_Encode(val : DLb; Stream : out DLb_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DLb_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DLb_ACN_Encode_aux directly).
    Stream := DLb_ACN_Stream'(Size_In_Bytes => DLb_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DLb_ACN_Encode_aux(val, Stream, result); 
end DLb_ACN_Encode; 

procedure DLb_ACN_Decode_aux(val:out DLb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DLb_h_n:adaasn1rtl.Asn1Int;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DLB_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DLb_h_n
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, DLb_h_n, -20, 20, 7, result);
        result.ErrorCode := ERR_ACN_DECODE_DLB_H_N;

        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DLB_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode b
        result := adaasn1rtl.ASN1_RESULT'(Success => 0<=DLb_h_n AND DLb_h_n<=20, ErrorCode => ERR_ACN_DECODE_DLB_B);
        if result.Success then
           val.b.Length := Integer(DLb_h_n);
            adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.b.Data, Integer(DLb_h_n), result.success);
        end if;
        if result.Success then
            -- Decode t
            result.ErrorCode := ERR_ACN_DECODE_DLB_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end DLb_ACN_Decode_aux;
PROCEDURE DLb_ACN_Decode(val: out DLb; Stream : in out DLb_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DLb_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DLb_IsConstraintValid(val);
    end if;

end DLb_ACN_Decode; 



function TgE_Equal (val1, val2 :  TgE) return Boolean
is

begin
	return val1 = val2;

end TgE_Equal;

function TgE_IsConstraintValid(val : TgE) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = t_a)) OR ((val = t_b)))) OR ((val = t_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_TGE);
    return ret;
end TgE_IsConstraintValid;



procedure TgE_ACN_Encode_aux(val : TgE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := TgE_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when t_a    => intVal_val := 5;
            when t_b    => intVal_val := 6;
            when t_c    => intVal_val := 200;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, intVal_val);
    end if;
end TgE_ACN_Encode_aux;
procedure TgE_ACN_Encode(val : TgE; Stream : out TgE_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to TgE_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke TgE_ACN_Encode_aux directly).
    Stream := TgE_ACN_Stream'(Size_In_Bytes => TgE_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    TgE_ACN_Encode_aux(val, Stream, result); 
end TgE_ACN_Encode; 

procedure TgE_ACN_Decode_aux(val:out TgE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, intVal_val, 5, 200, result);
    result.ErrorCode := ERR_ACN_DECODE_TGE;

    if result.Success then
        case intVal_val is
            when 5 => val := t_a;
            when 6 => val := t_b;
            when 200 => val := t_c;
        when others =>																				-- COVERAGE_IGNORE
            val := t_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_TGE);	-- COVERAGE_IGNORE
        end case;
    else
        val := t_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_TGE;																-- COVERAGE_IGNORE
    end if;
end TgE_ACN_Decode_aux;
PROCEDURE TgE_ACN_Decode(val: out TgE; Stream : in out TgE_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    TgE_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := TgE_IsConstraintValid(val);
    end if;

end TgE_ACN_Decode; 



function PCE_t_b_Equal (val1, val2 :  PCE_t_b) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end PCE_t_b_Equal;

function PCE_Equal (val1, val2 :  PCE) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when t_a_PRESENT =>
                ret := (val1.t_a = val2.t_a);
            when t_b_PRESENT =>
                ret := PCE_t_b_Equal(val1.t_b, val2.t_b);
            when t_c_PRESENT =>
                ret := (val1.t_c = val2.t_c);
        end case;
    end if;
	return ret;

end PCE_Equal;

function PCE_t_b_IsConstraintValid(val : PCE_t_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 6);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PCE_T_B);
    return ret;
end PCE_t_b_IsConstraintValid;

function PCE_IsConstraintValid(val : PCE) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN t_a_PRESENT =>
            ret := P8_IsConstraintValid(val.t_a);
        WHEN t_b_PRESENT =>
            ret := PCE_t_b_IsConstraintValid(val.t_b);
        WHEN t_c_PRESENT =>
            ret := P32_IsConstraintValid(val.t_c);
    end case;
    return ret;
end PCE_IsConstraintValid;






function DChE_t_Equal (val1, val2 :  DChE_t) return Boolean
is

begin
	return val1 = val2;

end DChE_t_Equal;

function DChE_Equal (val1, val2 :  DChE) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := PCE_Equal(val1.b, val2.b);

            if ret then
                ret := DChE_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DChE_Equal;

function DChE_t_IsConstraintValid(val : DChE_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCHE_T);
    return ret;
end DChE_t_IsConstraintValid;

function DChE_IsConstraintValid(val : DChE) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PCE_IsConstraintValid(val.b);
        if ret.Success then
            ret := DChE_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DChE_IsConstraintValid;




procedure DChE_ACN_Encode_aux(val : DChE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChE_h_k:TgE;
    DChE_h_k_is_initialized:Boolean:=False;
    intVal_DChE_h_k : adaasn1rtl.Asn1UInt;
begin
    result := DChE_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            case val.b.kind is
                when t_a_PRESENT =>
                    DChE_h_k_is_initialized := True;
                	DChE_h_k := t_a;
                when t_b_PRESENT =>
                    DChE_h_k_is_initialized := True;
                	DChE_h_k := t_b;
                when t_c_PRESENT =>
                    DChE_h_k_is_initialized := True;
                	DChE_h_k := t_c;
            end case;
            if result.Success then
                --Encode DChE_h_k
                if DChE_h_k_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    case DChE_h_k is
                        when t_a    => intVal_DChE_h_k := 5;
                        when t_b    => intVal_DChE_h_k := 6;
                        when t_c    => intVal_DChE_h_k := 200;
                    end case;
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_PositiveInteger_ConstSize_8(bs, intVal_DChE_h_k);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCHE_H_K_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                case val.b.kind is
                    when t_a_PRESENT =>
                    	P8_ACN_Encode_aux(val.b.t_a, bs, result);
                    when t_b_PRESENT =>
                    	result.Success := val.b.t_b.Length >= 0 AND val.b.t_b.Length <= 6;
                    	result.errorCode := ERR_ACN_ENCODE_DCHE_B_T_B;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.t_b.Length), 0, 3);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length));
                    	end if;
                    when t_c_PRESENT =>
                    	P32_ACN_Encode_aux(val.b.t_c, bs, result);
                end case;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DChE_ACN_Encode_aux;
procedure DChE_ACN_Encode(val : DChE; Stream : out DChE_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DChE_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DChE_ACN_Encode_aux directly).
    Stream := DChE_ACN_Stream'(Size_In_Bytes => DChE_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DChE_ACN_Encode_aux(val, Stream, result); 
end DChE_ACN_Encode; 

procedure DChE_ACN_Decode_aux(val:out DChE; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChE_h_k:TgE;
    intVal_DChE_h_k : adaasn1rtl.Asn1UInt;
    nStringLength:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCHE_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DChE_h_k
        adaasn1rtl.encoding.acn.Acn_Dec_Int_PositiveInteger_ConstSize_8(bs, intVal_DChE_h_k, 5, 200, result);
        result.ErrorCode := ERR_ACN_DECODE_DCHE_H_K;

        if result.Success then
            case intVal_DChE_h_k is
                when 5 => DChE_h_k := t_a;
                when 6 => DChE_h_k := t_b;
                when 200 => DChE_h_k := t_c;
            when others =>																				-- COVERAGE_IGNORE
                DChE_h_k := t_a;																-- COVERAGE_IGNORE
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_DCHE_H_K);	-- COVERAGE_IGNORE
            end case;
        else
            DChE_h_k := t_a;																	-- COVERAGE_IGNORE
            result.ErrorCode := ERR_ACN_DECODE_DCHE_H_K;																-- COVERAGE_IGNORE
        end if;
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCHE_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DCHE_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            case DChE_h_k is
                when t_a =>
                  val.b := PCE'(kind => t_a_PRESENT, t_a => 0);
                  P8_ACN_Decode_aux(val.b.t_a, bs, result);

                when t_b =>
                  val.b := PCE'(kind => t_b_PRESENT, t_b => (Length => 0, Data => (others => 0)));
                  adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 6, 3, result.Success);
                  result.errorCode := ERR_ACN_DECODE_DCHE_B_T_B;
                  val.b.t_b.Length := nStringLength;
                  if result.Success then
                      adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length), result.success);
                  end if;

                when t_c =>
                  val.b := PCE'(kind => t_c_PRESENT, t_c => 0);
                  P32_ACN_Decode_aux(val.b.t_c, bs, result);

            end case;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DCHE_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DChE_ACN_Decode_aux;
PROCEDURE DChE_ACN_Decode(val: out DChE; Stream : in out DChE_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DChE_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DChE_IsConstraintValid(val);
    end if;

end DChE_ACN_Decode; 



function TgU_Equal (val1, val2 :  TgU) return Boolean
is

begin
	return val1 = val2;

end TgU_Equal;

function TgU_IsConstraintValid(val : TgU) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = t_a)) OR ((val = t_b)))) OR ((val = t_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_TGU);
    return ret;
end TgU_IsConstraintValid;



procedure TgU_ACN_Encode_aux(val : TgU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result := TgU_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when t_a    => intVal_val := 0;
            when t_b    => intVal_val := 1;
            when t_c    => intVal_val := 2;
        end case;
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, intVal_val, 0, 2);
    end if;
end TgU_ACN_Encode_aux;
procedure TgU_ACN_Encode(val : TgU; Stream : out TgU_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to TgU_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke TgU_ACN_Encode_aux directly).
    Stream := TgU_ACN_Stream'(Size_In_Bytes => TgU_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    TgU_ACN_Encode_aux(val, Stream, result); 
end TgU_ACN_Encode; 

procedure TgU_ACN_Decode_aux(val:out TgU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1UInt;
begin
    result.ErrorCode := ERR_ACN_DECODE_TGU;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, intVal_val, 0, 2, 2, result.Success);
    if result.Success then
        case intVal_val is
            when 0 => val := t_a;
            when 1 => val := t_b;
            when 2 => val := t_c;
        when others =>																				-- COVERAGE_IGNORE
            val := t_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_TGU);	-- COVERAGE_IGNORE
        end case;
    else
        val := t_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_TGU;																-- COVERAGE_IGNORE
    end if;
end TgU_ACN_Decode_aux;
PROCEDURE TgU_ACN_Decode(val: out TgU; Stream : in out TgU_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    TgU_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := TgU_IsConstraintValid(val);
    end if;

end TgU_ACN_Decode; 



function PCU_t_b_Equal (val1, val2 :  PCU_t_b) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end PCU_t_b_Equal;

function PCU_Equal (val1, val2 :  PCU) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when t_a_PRESENT =>
                ret := (val1.t_a = val2.t_a);
            when t_b_PRESENT =>
                ret := PCU_t_b_Equal(val1.t_b, val2.t_b);
            when t_c_PRESENT =>
                ret := (val1.t_c = val2.t_c);
        end case;
    end if;
	return ret;

end PCU_Equal;

function PCU_t_b_IsConstraintValid(val : PCU_t_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 6);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PCU_T_B);
    return ret;
end PCU_t_b_IsConstraintValid;

function PCU_IsConstraintValid(val : PCU) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN t_a_PRESENT =>
            ret := P8_IsConstraintValid(val.t_a);
        WHEN t_b_PRESENT =>
            ret := PCU_t_b_IsConstraintValid(val.t_b);
        WHEN t_c_PRESENT =>
            ret := P32_IsConstraintValid(val.t_c);
    end case;
    return ret;
end PCU_IsConstraintValid;






function DChU_t_Equal (val1, val2 :  DChU_t) return Boolean
is

begin
	return val1 = val2;

end DChU_t_Equal;

function DChU_Equal (val1, val2 :  DChU) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := PCU_Equal(val1.b, val2.b);

            if ret then
                ret := DChU_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DChU_Equal;

function DChU_t_IsConstraintValid(val : DChU_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCHU_T);
    return ret;
end DChU_t_IsConstraintValid;

function DChU_IsConstraintValid(val : DChU) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PCU_IsConstraintValid(val.b);
        if ret.Success then
            ret := DChU_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DChU_IsConstraintValid;




procedure DChU_ACN_Encode_aux(val : DChU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChU_h_k:TgU;
    DChU_h_k_is_initialized:Boolean:=False;
    intVal_DChU_h_k : adaasn1rtl.Asn1UInt;
begin
    result := DChU_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            case val.b.kind is
                when t_a_PRESENT =>
                    DChU_h_k_is_initialized := True;
                	DChU_h_k := t_a;
                when t_b_PRESENT =>
                    DChU_h_k_is_initialized := True;
                	DChU_h_k := t_b;
                when t_c_PRESENT =>
                    DChU_h_k_is_initialized := True;
                	DChU_h_k := t_c;
            end case;
            if result.Success then
                --Encode DChU_h_k
                if DChU_h_k_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    case DChU_h_k is
                        when t_a    => intVal_DChU_h_k := 0;
                        when t_b    => intVal_DChU_h_k := 1;
                        when t_c    => intVal_DChU_h_k := 2;
                    end case;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, intVal_DChU_h_k, 0, 2);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCHU_H_K_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                case val.b.kind is
                    when t_a_PRESENT =>
                    	P8_ACN_Encode_aux(val.b.t_a, bs, result);
                    when t_b_PRESENT =>
                    	result.Success := val.b.t_b.Length >= 0 AND val.b.t_b.Length <= 6;
                    	result.errorCode := ERR_ACN_ENCODE_DCHU_B_T_B;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.t_b.Length), 0, 3);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length));
                    	end if;
                    when t_c_PRESENT =>
                    	P32_ACN_Encode_aux(val.b.t_c, bs, result);
                end case;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DChU_ACN_Encode_aux;
procedure DChU_ACN_Encode(val : DChU; Stream : out DChU_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DChU_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DChU_ACN_Encode_aux directly).
    Stream := DChU_ACN_Stream'(Size_In_Bytes => DChU_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DChU_ACN_Encode_aux(val, Stream, result); 
end DChU_ACN_Encode; 

procedure DChU_ACN_Decode_aux(val:out DChU; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChU_h_k:TgU;
    intVal_DChU_h_k : adaasn1rtl.Asn1UInt;
    nStringLength:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCHU_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DChU_h_k
        result.ErrorCode := ERR_ACN_DECODE_DCHU_H_K;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, intVal_DChU_h_k, 0, 2, 2, result.Success);
        if result.Success then
            case intVal_DChU_h_k is
                when 0 => DChU_h_k := t_a;
                when 1 => DChU_h_k := t_b;
                when 2 => DChU_h_k := t_c;
            when others =>																				-- COVERAGE_IGNORE
                DChU_h_k := t_a;																-- COVERAGE_IGNORE
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_DCHU_H_K);	-- COVERAGE_IGNORE
            end case;
        else
            DChU_h_k := t_a;																	-- COVERAGE_IGNORE
            result.ErrorCode := ERR_ACN_DECODE_DCHU_H_K;																-- COVERAGE_IGNORE
        end if;
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCHU_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DCHU_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            case DChU_h_k is
                when t_a =>
                  val.b := PCU'(kind => t_a_PRESENT, t_a => 0);
                  P8_ACN_Decode_aux(val.b.t_a, bs, result);

                when t_b =>
                  val.b := PCU'(kind => t_b_PRESENT, t_b => (Length => 0, Data => (others => 0)));
                  adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 6, 3, result.Success);
                  result.errorCode := ERR_ACN_DECODE_DCHU_B_T_B;
                  val.b.t_b.Length := nStringLength;
                  if result.Success then
                      adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length), result.success);
                  end if;

                when t_c =>
                  val.b := PCU'(kind => t_c_PRESENT, t_c => 0);
                  P32_ACN_Decode_aux(val.b.t_c, bs, result);

            end case;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DCHU_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DChU_ACN_Decode_aux;
PROCEDURE DChU_ACN_Decode(val: out DChU; Stream : in out DChU_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DChU_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DChU_IsConstraintValid(val);
    end if;

end DChU_ACN_Decode; 



function TgN_Equal (val1, val2 :  TgN) return Boolean
is

begin
	return val1 = val2;

end TgN_Equal;

function TgN_IsConstraintValid(val : TgN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = t_a)) OR ((val = t_b)))) OR ((val = t_c)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_TGN);
    return ret;
end TgN_IsConstraintValid;



procedure TgN_ACN_Encode_aux(val : TgN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    result := TgN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val is
            when t_a    => intVal_val := -3;
            when t_b    => intVal_val := 0;
            when t_c    => intVal_val := 900;
        end case;
        adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, intVal_val, 12);
    end if;
end TgN_ACN_Encode_aux;
procedure TgN_ACN_Encode(val : TgN; Stream : out TgN_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to TgN_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke TgN_ACN_Encode_aux directly).
    Stream := TgN_ACN_Stream'(Size_In_Bytes => TgN_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    TgN_ACN_Encode_aux(val, Stream, result); 
end TgN_ACN_Encode; 

procedure TgN_ACN_Decode_aux(val:out TgN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    intVal_val : adaasn1rtl.Asn1Int;
begin
    adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, intVal_val, -3, 900, 12, result);
    result.ErrorCode := ERR_ACN_DECODE_TGN;

    if result.Success then
        case intVal_val is
            when -3 => val := t_a;
            when 0 => val := t_b;
            when 900 => val := t_c;
        when others =>																				-- COVERAGE_IGNORE
            val := t_a;																-- COVERAGE_IGNORE
            result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_TGN);	-- COVERAGE_IGNORE
        end case;
    else
        val := t_a;																	-- COVERAGE_IGNORE
        result.ErrorCode := ERR_ACN_DECODE_TGN;																-- COVERAGE_IGNORE
    end if;
end TgN_ACN_Decode_aux;
PROCEDURE TgN_ACN_Decode(val: out TgN; Stream : in out TgN_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    TgN_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := TgN_IsConstraintValid(val);
    end if;

end TgN_ACN_Decode; 



function PCN_t_b_Equal (val1, val2 :  PCN_t_b) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end PCN_t_b_Equal;

function PCN_Equal (val1, val2 :  PCN) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when t_a_PRESENT =>
                ret := (val1.t_a = val2.t_a);
            when t_b_PRESENT =>
                ret := PCN_t_b_Equal(val1.t_b, val2.t_b);
            when t_c_PRESENT =>
                ret := (val1.t_c = val2.t_c);
        end case;
    end if;
	return ret;

end PCN_Equal;

function PCN_t_b_IsConstraintValid(val : PCN_t_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 6);
    ret.ErrorCode := (if ret.Success then 0 else ERR_PCN_T_B);
    return ret;
end PCN_t_b_IsConstraintValid;

function PCN_IsConstraintValid(val : PCN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN t_a_PRESENT =>
            ret := P8_IsConstraintValid(val.t_a);
        WHEN t_b_PRESENT =>
            ret := PCN_t_b_IsConstraintValid(val.t_b);
        WHEN t_c_PRESENT =>
            ret := P32_IsConstraintValid(val.t_c);
    end case;
    return ret;
end PCN_IsConstraintValid;






function DChN_t_Equal (val1, val2 :  DChN_t) return Boolean
is

begin
	return val1 = val2;

end DChN_t_Equal;

function DChN_Equal (val1, val2 :  DChN) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DHdr_Equal(val1.h, val2.h);

    if ret then
        ret := (val1.m = val2.m);

        if ret then
            ret := PCN_Equal(val1.b, val2.b);

            if ret then
                ret := DChN_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end DChN_Equal;

function DChN_t_IsConstraintValid(val : DChN_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DCHN_T);
    return ret;
end DChN_t_IsConstraintValid;

function DChN_IsConstraintValid(val : DChN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DHdr_IsConstraintValid(val.h);
    if ret.Success then
        ret := PCN_IsConstraintValid(val.b);
        if ret.Success then
            ret := DChN_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end DChN_IsConstraintValid;




procedure DChN_ACN_Encode_aux(val : DChN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChN_h_k:TgN;
    DChN_h_k_is_initialized:Boolean:=False;
    intVal_DChN_h_k : adaasn1rtl.Asn1Int;
begin
    result := DChN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- Encode h
        -- Encode v
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.v, 0, 3);
        if result.Success then
            case val.b.kind is
                when t_a_PRESENT =>
                    DChN_h_k_is_initialized := True;
                	DChN_h_k := t_a;
                when t_b_PRESENT =>
                    DChN_h_k_is_initialized := True;
                	DChN_h_k := t_b;
                when t_c_PRESENT =>
                    DChN_h_k_is_initialized := True;
                	DChN_h_k := t_c;
            end case;
            if result.Success then
                --Encode DChN_h_k
                if DChN_h_k_is_initialized then
                    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
                    case DChN_h_k is
                        when t_a    => intVal_DChN_h_k := -3;
                        when t_b    => intVal_DChN_h_k := 0;
                        when t_c    => intVal_DChN_h_k := 900;
                    end case;
                    adaasn1rtl.encoding.acn.Acn_Enc_Int_TwosComplement_ConstSize(bs, intVal_DChN_h_k, 12);
                else
                    result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_ENCODE_DCHN_H_K_UNINITIALIZED); --COVERAGE_IGNORE
                end if;
            end if;
            if result.Success then
                -- Encode e
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h.e, 0, 2);
            end if;
        end if;
        if result.Success then
            -- Encode m
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m);
            if result.Success then
                -- Encode b
                case val.b.kind is
                    when t_a_PRESENT =>
                    	P8_ACN_Encode_aux(val.b.t_a, bs, result);
                    when t_b_PRESENT =>
                    	result.Success := val.b.t_b.Length >= 0 AND val.b.t_b.Length <= 6;
                    	result.errorCode := ERR_ACN_ENCODE_DCHN_B_T_B;
                    	if result.Success then
                    	    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.t_b.Length), 0, 3);
                    	    adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length));
                    	end if;
                    when t_c_PRESENT =>
                    	P32_ACN_Encode_aux(val.b.t_c, bs, result);
                end case;
                if result.Success then
                    -- Encode t
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                end if;
            end if;
        end if;
    end if;
end DChN_ACN_Encode_aux;
procedure DChN_ACN_Encode(val : DChN; Stream : out DChN_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DChN_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DChN_ACN_Encode_aux directly).
    Stream := DChN_ACN_Stream'(Size_In_Bytes => DChN_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DChN_ACN_Encode_aux(val, Stream, result); 
end DChN_ACN_Encode; 

procedure DChN_ACN_Decode_aux(val:out DChN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    DChN_h_k:TgN;
    intVal_DChN_h_k : adaasn1rtl.Asn1Int;
    nStringLength:Integer;
begin
    -- Decode h
    -- Decode v
    result.ErrorCode := ERR_ACN_DECODE_DCHN_H_V;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.v, 0, 7, 3, result.Success);
    if result.Success then
        -- Decode DChN_h_k
        adaasn1rtl.encoding.acn.Acn_Dec_Int_TwosComplement_ConstSize(bs, intVal_DChN_h_k, -3, 900, 12, result);
        result.ErrorCode := ERR_ACN_DECODE_DCHN_H_K;

        if result.Success then
            case intVal_DChN_h_k is
                when -3 => DChN_h_k := t_a;
                when 0 => DChN_h_k := t_b;
                when 900 => DChN_h_k := t_c;
            when others =>																				-- COVERAGE_IGNORE
                DChN_h_k := t_a;																-- COVERAGE_IGNORE
                result := adaasn1rtl.ASN1_RESULT'(Success => False, ErrorCode => ERR_ACN_DECODE_DCHN_H_K);	-- COVERAGE_IGNORE
            end case;
        else
            DChN_h_k := t_a;																	-- COVERAGE_IGNORE
            result.ErrorCode := ERR_ACN_DECODE_DCHN_H_K;																-- COVERAGE_IGNORE
        end if;
        if result.Success then
            -- Decode e
            result.ErrorCode := ERR_ACN_DECODE_DCHN_H_E;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h.e, 0, 3, 2, result.Success);
        end if;
    end if;
    if result.Success then
        -- Decode m
        result.ErrorCode := ERR_ACN_DECODE_DCHN_M;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m, result.Success);
        if result.Success then
            -- Decode b
            case DChN_h_k is
                when t_a =>
                  val.b := PCN'(kind => t_a_PRESENT, t_a => 0);
                  P8_ACN_Decode_aux(val.b.t_a, bs, result);

                when t_b =>
                  val.b := PCN'(kind => t_b_PRESENT, t_b => (Length => 0, Data => (others => 0)));
                  adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 6, 3, result.Success);
                  result.errorCode := ERR_ACN_DECODE_DCHN_B_T_B;
                  val.b.t_b.Length := nStringLength;
                  if result.Success then
                      adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.b.t_b.Data, Integer(val.b.t_b.Length), result.success);
                  end if;

                when t_c =>
                  val.b := PCN'(kind => t_c_PRESENT, t_c => 0);
                  P32_ACN_Decode_aux(val.b.t_c, bs, result);

            end case;
            if result.Success then
                -- Decode t
                result.ErrorCode := ERR_ACN_DECODE_DCHN_T;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
            end if;
        end if;
    end if;
end DChN_ACN_Decode_aux;
PROCEDURE DChN_ACN_Decode(val: out DChN; Stream : in out DChN_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DChN_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DChN_IsConstraintValid(val);
    end if;

end DChN_ACN_Decode; 



function DAll_x_Equal (val1, val2 :  DAll_x) return Boolean
is

begin
	return val1 = val2;

end DAll_x_Equal;

function DAll_b_Equal (val1, val2 :  DAll_b) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := DW12_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end DAll_b_Equal;

function DAll_Equal (val1, val2 :  DAll) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := DAll_x_Equal(val1.x, val2.x);

    if ret then
        ret := val1.Exist.a = val2.Exist.a;
        if ret and then val1.Exist.a = 1 then
            ret := DSh_Equal(val1.a, val2.a);
        end if;

        if ret then
            ret := DAll_b_Equal(val1.b, val2.b);

            if ret then
                ret := DFwd_Equal(val1.c, val2.c);

                if ret then
                    ret := DCo_Equal(val1.d, val2.d);

                    if ret then
                        ret := DChN_Equal(val1.e, val2.e);

                        if ret then
                            ret := DPrB_Equal(val1.f, val2.f);

                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end DAll_Equal;

function DAll_x_IsConstraintValid(val : DAll_x) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DALL_X);
    return ret;
end DAll_x_IsConstraintValid;

function DAll_b_IsConstraintValid(val : DAll_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 4);
    ret.ErrorCode := (if ret.Success then 0 else ERR_DALL_B);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := DW12_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end DAll_b_IsConstraintValid;

function DAll_IsConstraintValid(val : DAll) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := DAll_x_IsConstraintValid(val.x);
    if ret.Success then
        if val.Exist.a = 1 then
            ret := DSh_IsConstraintValid(val.a);
        end if;
        if ret.Success then
            ret := DAll_b_IsConstraintValid(val.b);
            if ret.Success then
                ret := DFwd_IsConstraintValid(val.c);
                if ret.Success then
                    ret := DCo_IsConstraintValid(val.d);
                    if ret.Success then
                        ret := DChN_IsConstraintValid(val.e);
                        if ret.Success then
                            ret := DPrB_IsConstraintValid(val.f);
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end DAll_IsConstraintValid;





procedure DAll_ACN_Encode_aux(val : DAll; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    i1:Integer;
begin
    result := DAll_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.a);
        if result.Success then
            -- Encode x
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.x, 0, 3);
            if result.Success then
                -- Encode a
                if val.Exist.a = 1 then
                	DSh_ACN_Encode_aux(val.a, bs, result);
                end if;
                if result.Success then
                    -- Encode b
                    result.Success := val.b.Length >= 0 AND val.b.Length <= 4;
                    result.errorCode := ERR_ACN_ENCODE_DALL_B;
                    if result.Success then
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.b.Length), 0, 3);
                        i1 := 1;
                        while i1<= val.b.Length loop
                            pragma Loop_Invariant (i1 >=1 and i1<=val.b.Length);
                            pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                            pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 87*(i1-1));
                            DW12_ACN_Encode_aux(val.b.Data(i1), bs, result);
                            i1 := i1 + 1;
                        end loop;
                    end if;
                    if result.Success then
                        -- Encode c
                        DFwd_ACN_Encode_aux(val.c, bs, result);
                        if result.Success then
                            -- Encode d
                            DCo_ACN_Encode_aux(val.d, bs, result);
                            if result.Success then
                                -- Encode e
                                DChN_ACN_Encode_aux(val.e, bs, result);
                                if result.Success then
                                    -- Encode f
                                    DPrB_ACN_Encode_aux(val.f, bs, result);
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DAll_ACN_Encode_aux;
procedure DAll_ACN_Encode(val : DAll; Stream : out DAll_ACN_Stream; result : out adaasn1rtl.ASN1_RESULT) 
is
begin
    --  Stream subtype is constrained to DAll_ACN_STREAM_SIZE; use that
    --  exact value to satisfy the discriminant.  In closure-converted (--acn-v2)
    --  spec functions the actual content may exceed this size, but the public
    --  wrapper is dead code in that path (callers invoke DAll_ACN_Encode_aux directly).
    Stream := DAll_ACN_Stream'(Size_In_Bytes => DAll_ACN_STREAM_SIZE, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0)); 
    DAll_ACN_Encode_aux(val, Stream, result); 
end DAll_ACN_Encode; 

procedure DAll_ACN_Decode_aux(val:out DAll; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    a_exist:adaasn1rtl.BIT;
    i1:Integer;
    nStringLength:Integer;
begin
    result.ErrorCode := ERR_ACN_DECODE_DALL;
    adaasn1rtl.encoding.BitStream_ReadBit(bs, a_exist, result.Success);
    val.Exist.a := a_exist;
    if result.Success then
        -- Decode x
        result.ErrorCode := ERR_ACN_DECODE_DALL_X;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.x, 0, 7, 3, result.Success);
        if result.Success then
            -- Decode a
            if val.Exist.a = 1 then
            	DSh_ACN_Decode_aux(val.a, bs, result);
            end if;
            if result.Success then
                -- Decode b
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 4, 3, result.Success);
                result.errorCode := ERR_ACN_DECODE_DALL_B;
                val.b.Length := nStringLength;
                i1 := 1;
                while i1<= val.b.Length AND result.Success loop
                    pragma Loop_Invariant (i1 >=1 and i1<=val.b.Length);
                    pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                    pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 87*(i1-1));
                    DW12_ACN_Decode_aux(val.b.Data(i1), bs, result);
                    i1 := i1 + 1;
                end loop;
                if result.Success then
                    -- Decode c
                    DFwd_ACN_Decode_aux(val.c, bs, result);
                    if result.Success then
                        -- Decode d
                        DCo_ACN_Decode_aux(val.d, bs, result);
                        if result.Success then
                            -- Decode e
                            DChN_ACN_Decode_aux(val.e, bs, result);
                            if result.Success then
                                -- Decode f
                                DPrB_ACN_Decode_aux(val.f, bs, result);
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end DAll_ACN_Decode_aux;
PROCEDURE DAll_ACN_Decode(val: out DAll; Stream : in out DAll_ACN_Stream; result : OUT adaasn1rtl.ASN1_RESULT) 
is
begin
    Stream.Current_Bit_Pos :=0; 
    DAll_ACN_Decode_aux(val, Stream, result); 
    if result.success then
        result := DAll_IsConstraintValid(val);
    end if;

end DAll_ACN_Decode; 


pragma Warnings (On, "condition can only be False if invalid values present");
pragma Warnings (On, "condition can only be True if invalid values present");

end DFM;