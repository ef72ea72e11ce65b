"""Ada nodes: a generated glue package per model, built with gnat into a shared object with a C interface."""
from .common import *
from . import dsl
from .dsl import *
from .dsl import cid as _cid


def cid(s):
    """the compiler appends _1 to names that are reserved words of Ada"""
    c = _cid(s)
    return c + '_1' if c.lower() in ('body', 'range', 'type', 'record', 'end', 'begin', 'array', 'mod', 'rem', 'is', 'at', 'use') else c

RTL = ['adaasn1rtl', 'adaasn1rtl-encoding', 'adaasn1rtl-encoding-uper', 'adaasn1rtl-encoding-acn']
ADAFLAGS = ['-gnat2012', '-gnatws', '-gnato', '-O1', '-g1', '-fPIC', '-fno-omit-frame-pointer']


class Gen:
    """statements moving a value between the token list and an Ada variable v of (Ada) type tn"""
    def __init__(self):
        self.d = 0

    def enum_lits(self, t):
        return [(cid(n), v) for n, v, _ in t.items]

    def put(self, t, v, tn):
        if isinstance(t, (Ref,)):
            return 'Put_%s (%s);' % (cid(t.name), v)
        if isinstance(t, Containing):
            return self.put(t.ref, v, tn)
        if isinstance(t, Int):
            return '%s := %s;' % (v, 'TKU' if t.unsigned() else 'TKI')
        if isinstance(t, Bool):
            return '%s := TKI /= 0;' % v
        if isinstance(t, Null):
            return '%s := 0;' % v
        if isinstance(t, Real):
            return '%s := TKD;' % v
        if isinstance(t, Enum):
            return 'case TKI is %s when others => raise Bad_Token; end case;' % ' '.join('when %d => %s := %s;' % (x, v, n) for n, x in self.enum_lits(t))
        if isinstance(t, (Octets, Bits, SeqOf)):
            self.d += 1
            n, i = 'N%d' % self.d, 'I%d' % self.d
            s = 'declare %s : constant Integer := Integer (TKI); %sbegin ' % (n, 'Oc : Integer := 0; ' if isinstance(t, Bits) else '')
            if not t.fixed():
                s += '%s.Length := %s; ' % (v, n)
            if isinstance(t, Octets):
                b = '%s.Data (%s) := adaasn1rtl.Asn1Byte (TKI);' % (v, i)
            elif isinstance(t, Bits):
                b = 'if (%s - 1) mod 8 = 0 then Oc := Integer (TKI); end if; %s.Data (%s) := adaasn1rtl.BIT ((Oc / 2 ** (7 - (%s - 1) mod 8)) mod 2);' % (i, v, i, i)
            else:
                b = self.put(t.elem, '%s.Data (%s)' % (v, i), tn + '_elem')
            s += 'for %s in 1 .. %s loop %s end loop; end;' % (i, n, b)
            self.d -= 1
            return s
        if isinstance(t, Str):
            return 'declare N : constant Integer := Integer (TKI); begin for I in %s\'Range loop %s (I) := Character\'Val (0); end loop; for I in 1 .. N loop %s (I) := Character\'Val (TKI); end loop; end;' % (v, v, v)
        if isinstance(t, Oid):
            return '%s.Length := Integer (TKI); for I in 1 .. %s.Length loop %s.values (I) := TKU; end loop;' % (v, v, v)
        if isinstance(t, Seq):
            s = ''
            fs = [f for f in t.fields if not f.inserted]
            if not fs:
                return 'null;'
            for f in fs:
                if f.opt is not None:
                    s += '%s.Exist.%s := (if TKI /= 0 then 1 else 0); ' % (v, cid(f.name))
            for f in fs:
                b = self.put(f.t, '%s.%s' % (v, cid(f.name)), tn + '_' + cid(f.name))
                s += ('if %s.Exist.%s = 1 then %s end if;\n' % (v, cid(f.name), b)) if f.opt == 'OPT' else b + '\n'
            return s
        if isinstance(t, Choice):
            s = 'case TKI is\n'
            for k, f in enumerate(t.alts):
                s += 'when %d => declare T : %s (%s_PRESENT); begin %s %s := T; end;\n' % (
                    k, tn, cid(f.name), self.put(f.t, 'T.' + cid(f.name), tn + '_' + cid(f.name)), v)
            return s + 'when others => raise Bad_Token; end case;'
        raise Exception(t)

    def get(self, t, v, tn):
        if isinstance(t, Ref):
            return 'Get_%s (%s);' % (cid(t.name), v)
        if isinstance(t, Containing):
            return self.get(t.ref, v, tn)
        if isinstance(t, Int):
            return '%s (%s);' % ('PTU' if t.unsigned() else 'PTI', v)
        if isinstance(t, Bool):
            return 'PTI ((if %s then 1 else 0));' % v
        if isinstance(t, Null):
            return 'null;'
        if isinstance(t, Real):
            return 'PTD (%s);' % v
        if isinstance(t, Enum):
            return 'case %s is %s end case;' % (v, ' '.join('when %s => PTI (%d);' % (n, x) for n, x in self.enum_lits(t)))
        if isinstance(t, (Octets, Bits, SeqOf)):
            self.d += 1
            n, i = 'N%d' % self.d, 'I%d' % self.d
            s = 'declare %s : constant Integer := %s; %sbegin PTI (adaasn1rtl.Asn1Int (%s)); ' % (
                n, t.hi if t.fixed() else v + '.Length', 'Oc : Integer := 0; ' if isinstance(t, Bits) else '', n)
            if isinstance(t, Octets):
                b = 'PTI (adaasn1rtl.Asn1Int (%s.Data (%s)));' % (v, i)
            elif isinstance(t, Bits):
                b = 'if %s.Data (%s) = 1 then Oc := Oc + 2 ** (7 - (%s - 1) mod 8); end if; if %s mod 8 = 0 or %s = %s then PTI (adaasn1rtl.Asn1Int (Oc)); Oc := 0; end if;' % (v, i, i, i, i, n)
            else:
                b = self.get(t.elem, '%s.Data (%s)' % (v, i), tn + '_elem')
            s += 'for %s in 1 .. %s loop %s end loop; end;' % (i, n, b)
            self.d -= 1
            return s
        if isinstance(t, Str):
            return ('declare N : Integer := 0; begin while N < %s\'Last and then Character\'Pos (%s (N + 1)) /= 0 loop N := N + 1; end loop; '
                    'PTI (adaasn1rtl.Asn1Int (N)); for I in 1 .. N loop PTI (Character\'Pos (%s (I))); end loop; end;' % (v, v, v))
        if isinstance(t, Oid):
            return 'PTI (adaasn1rtl.Asn1Int (%s.Length)); for I in 1 .. %s.Length loop PTU (%s.values (I)); end loop;' % (v, v, v)
        if isinstance(t, Seq):
            s = ''
            fs = [f for f in t.fields if not f.inserted]
            if not fs:
                return 'null;'
            for f in fs:
                if f.opt is not None:
                    s += 'PTI (if %s.Exist.%s = 1 then 1 else 0); ' % (v, cid(f.name))
            for f in fs:
                b = self.get(f.t, '%s.%s' % (v, cid(f.name)), tn + '_' + cid(f.name))
                s += ('if %s.Exist.%s = 1 then %s end if;\n' % (v, cid(f.name), b)) if f.opt == 'OPT' else b + '\n'
            return s
        if isinstance(t, Choice):
            s = 'case %s.kind is\n' % v
            for k, f in enumerate(t.alts):
                s += 'when %s_PRESENT => PTI (%d); %s\n' % (cid(f.name), k, self.get(f.t, '%s.%s' % (v, cid(f.name)), tn + '_' + cid(f.name)))
            return s + 'end case;'
        raise Exception(t)


HEAD = '''with System; use System;
with Interfaces; use Interfaces;
with Interfaces.C;
with Ada.Exceptions;
with Ada.Unchecked_Conversion;
with adaasn1rtl;
with adaasn1rtl.encoding;
with %(mod)s; use %(mod)s;
package body Vf_Glue is
   use type Interfaces.C.int;
   use type adaasn1rtl.BIT;
   subtype ASN1_RESULT is adaasn1rtl.ASN1_RESULT;
   subtype Bitstream is adaasn1rtl.encoding.Bitstream;
   subtype Asn1Byte is adaasn1rtl.Asn1Byte;
   Bad_Token : exception;
   type Tok_Arr is array (Natural) of Integer_64;
   type Byte_Arr is array (Natural) of Interfaces.Unsigned_8;
   type Tok_Ptr is access all Tok_Arr;
   for Tok_Ptr'Storage_Size use 0;
   function To_Tok is new Ada.Unchecked_Conversion (System.Address, Tok_Ptr);
   type Byte_Ptr is access all Byte_Arr;
   for Byte_Ptr'Storage_Size use 0;
   function To_Bytes is new Ada.Unchecked_Conversion (System.Address, Byte_Ptr);
   function D2I is new Ada.Unchecked_Conversion (Long_Float, Integer_64);
   function I2D is new Ada.Unchecked_Conversion (Integer_64, Long_Float);
   function I2U is new Ada.Unchecked_Conversion (Integer_64, Unsigned_64);
   function U2I is new Ada.Unchecked_Conversion (Unsigned_64, Integer_64);
   Tk : Tok_Ptr;
   TkN, TkPos : Integer := 0;
   function TKI return Integer_64 is
   begin
      if TkPos >= TkN then raise Bad_Token; end if;
      TkPos := TkPos + 1;
      return Tk (TkPos - 1);
   end TKI;
   function TKU return Unsigned_64 is (I2U (TKI));
   function TKD return Long_Float is (I2D (TKI));
   procedure PTI (V : Integer_64) is
   begin
      if TkPos < TkN then Tk (TkPos) := V; end if;
      TkPos := TkPos + 1;
   end PTI;
   procedure PTU (V : Unsigned_64) is begin PTI (U2I (V)); end PTU;
   procedure PTD (V : Long_Float) is begin PTI (D2I (V)); end PTD;
   procedure Note (E : Ada.Exceptions.Exception_Occurrence; Msg : System.Address) is
      B : constant Byte_Ptr := To_Bytes (Msg);
      S : constant String := Ada.Exceptions.Exception_Name (E) & ": " & Ada.Exceptions.Exception_Message (E);
      L : constant Integer := Integer'Min (S'Length, 190);
   begin
      for I in 1 .. L loop B (I - 1) := Character'Pos (S (S'First + I - 1)); end loop;
      B (L) := 0;
   end Note;
'''


def glue(m, kind):
    g = Gen()
    inf = {'uper': '', 'acn': 'ACN_'}[kind]
    st = {'uper': 'uPER_Stream', 'acn': 'ACN_Stream'}[kind]
    s = HEAD % dict(mod=m.module)
    for t in m.types:
        n = cid(t[0])
        s += '   procedure Put_%s (v : out %s);\n   procedure Get_%s (v : %s);\n' % (n, n, n, n)
    for t in m.types:
        n = cid(t[0])
        s += '   procedure Put_%s (v : out %s) is begin\n%s\n   end Put_%s;\n' % (n, n, g.put(t[1], 'v', n), n)
        s += '   procedure Get_%s (v : %s) is begin\n%s\n   end Get_%s;\n' % (n, n, g.get(t[1], 'v', n), n)
    for p in m.pdus:
        n = cid(p)
        null_ = isinstance(resolve(REG_OF(m)[p]), Null)
        valid = 'Res := (Success => True, ErrorCode => 0);' if null_ else 'Res := %s_IsConstraintValid (Val);' % n
        req = '%s_%s\'Size / 8' % (n, st)
        s += '''   procedure E_%(n)s (Check : Boolean; Phase, Size : Integer; Buf : Byte_Ptr; Bits : out Integer; Res : out ASN1_RESULT) is
      Val : %(n)s;
   begin
      Bits := 0;
      Put_%(n)s (Val);
      Res := (Success => True, ErrorCode => 0);
      if Check then %(valid)s end if;
      if not Res.Success then return; end if;
      if Size = 0 then
         declare Strm : %(n)s_%(st)s; begin
            %(n)s_%(inf)sEncode (Val, Strm, Res);
            Bits := Strm.Current_Bit_Pos;
            for I in Strm.Buffer'Range loop Buf (I - 1) := Interfaces.Unsigned_8 (Strm.Buffer (I)); end loop;
         end;
      else
         declare Strm : Bitstream (Size); begin
            Strm.Current_Bit_Pos := Phase;
            for I in Strm.Buffer'Range loop Strm.Buffer (I) := Asn1Byte (Buf (I - 1)); end loop;
            %(n)s_%(inf)sEncode_aux (Val, Strm, Res);
            Bits := Strm.Current_Bit_Pos - Phase;
            for I in Strm.Buffer'Range loop Buf (I - 1) := Interfaces.Unsigned_8 (Strm.Buffer (I)); end loop;
         end;
      end if;
   end E_%(n)s;
   procedure D_%(n)s (Phase, Size, Prev : Integer; Buf : Byte_Ptr; Bits : out Integer; Res : out ASN1_RESULT; Cap : Integer) is
      Val : %(n)s := %(n)s_Init;
   begin
      Bits := 0;
      if Prev > 0 then Put_%(n)s (Val); end if;
      TkPos := 0; TkN := Cap;
      if Size = 0 then
         declare Strm : %(n)s_%(st)s; begin
            for I in Strm.Buffer'Range loop Strm.Buffer (I) := Asn1Byte (Buf (I - 1)); end loop;
            %(n)s_%(inf)sDecode (Val, Strm, Res);
            Bits := Strm.Current_Bit_Pos;
         end;
      else
         declare Strm : Bitstream (Size); begin
            Strm.Current_Bit_Pos := Phase;
            for I in Strm.Buffer'Range loop Strm.Buffer (I) := Asn1Byte (Buf (I - 1)); end loop;
            %(n)s_%(inf)sDecode_aux (Val, Strm, Res);
            Bits := Strm.Current_Bit_Pos - Phase;
            if Res.Success then %(valid)s end if;
         end;
      end if;
      if Res.Success then Get_%(n)s (Val); end if;
   end D_%(n)s;
   function Q_%(n)s return Integer is
      A, B : %(n)s;
   begin
      Put_%(n)s (A); Put_%(n)s (B);
      return (if %(n)s_Equal (A, B) then 1 else 0);
   end Q_%(n)s;
''' % dict(n=n, valid=valid, inf=inf, st=st)

    def case(body):
        return '      case Pdu is\n' + ''.join('         when %d => %s\n' % (i, body % dict(n=cid(p), st=st)) for i, p in enumerate(m.pdus)) + '         when others => raise Bad_Token;\n      end case;\n'
    s += '''   function Encode (Pdu, Check, Phase, Size : Interfaces.C.int; Toks : System.Address; Ntok : Interfaces.C.int; Buf : System.Address; Bits : System.Address; Msg : System.Address) return Interfaces.C.int is
      Res : ASN1_RESULT := (True, 0); Nb : Integer := 0;
      Ob : Integer with Import, Address => Bits;
      Chk : constant Boolean := Check /= 0; Ph : constant Integer := Integer (Phase); Sz : constant Integer := Integer (Size);
   begin
      Tk := To_Tok (Toks); TkN := Integer (Ntok); TkPos := 0; Ob := 0;
%s      Ob := Nb;
      if Res.Success then return 0; end if;
      return Interfaces.C.int (if Res.ErrorCode > 0 then Res.ErrorCode else 999999);
   exception when E : others => Note (E, Msg); return -1;
   end Encode;
''' % case('E_%(n)s (Chk, Ph, Sz, To_Bytes (Buf), Nb, Res);')
    s += '''   function Decode (Pdu, Phase, Size : Interfaces.C.int; Buf : System.Address; Toks : System.Address; Prev, Cap : Interfaces.C.int; Ntok, Bits : System.Address; Msg : System.Address) return Interfaces.C.int is
      Res : ASN1_RESULT := (True, 0); Nb : Integer := 0;
      Ob : Integer with Import, Address => Bits;
      On : Integer with Import, Address => Ntok;
      Ph : constant Integer := Integer (Phase); Sz : constant Integer := Integer (Size); Cp : constant Integer := Integer (Cap);
      Pv : constant Integer := Integer (Prev);
   begin
      Tk := To_Tok (Toks); TkN := Pv; TkPos := 0; Ob := 0; On := 0;
%s      Ob := Nb; On := TkPos;
      if Res.Success then return 0; end if;
      return Interfaces.C.int (if Res.ErrorCode > 0 then Res.ErrorCode else 999999);
   exception when E : others => Note (E, Msg); return -1;
   end Decode;
''' % case('D_%(n)s (Ph, Sz, Pv, To_Bytes (Buf), Nb, Res, Cp);')
    s += '''   function Equal (Pdu : Interfaces.C.int; Toks : System.Address; Ntok : Interfaces.C.int; Msg : System.Address) return Interfaces.C.int is
      R : Integer := 0;
   begin
      Tk := To_Tok (Toks); TkN := Integer (Ntok); TkPos := 0;
%s      return Interfaces.C.int (R);
   exception when E : others => Note (E, Msg); return -1;
   end Equal;
''' % case('R := Q_%(n)s;')
    s += '''   function Required (Pdu : Interfaces.C.int) return Interfaces.C.int is
      R : Integer := 0;
   begin
%s      return Interfaces.C.int (R);
   end Required;
end Vf_Glue;
''' % case('declare B : %(n)s_%(st)s; begin R := B.Size_In_Bytes; end;')
    ads = '''with System;
with Interfaces.C;
package Vf_Glue is
   function Encode (Pdu, Check, Phase, Size : Interfaces.C.int; Toks : System.Address; Ntok : Interfaces.C.int; Buf : System.Address; Bits : System.Address; Msg : System.Address) return Interfaces.C.int
     with Export, Convention => C, External_Name => "vfa_encode";
   function Decode (Pdu, Phase, Size : Interfaces.C.int; Buf : System.Address; Toks : System.Address; Prev, Cap : Interfaces.C.int; Ntok, Bits : System.Address; Msg : System.Address) return Interfaces.C.int
     with Export, Convention => C, External_Name => "vfa_decode";
   function Equal (Pdu : Interfaces.C.int; Toks : System.Address; Ntok : Interfaces.C.int; Msg : System.Address) return Interfaces.C.int
     with Export, Convention => C, External_Name => "vfa_equal";
   function Required (Pdu : Interfaces.C.int) return Interfaces.C.int
     with Export, Convention => C, External_Name => "vfa_required";
end Vf_Glue;
'''
    return ads, s


def REG_OF(m):
    return {t[0]: t[1] for t in m.types}
