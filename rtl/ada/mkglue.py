"""Writes the Ada procedure that runs one primitive of the Ada runtime (glue.adb), and the operation numbers (ops.h)."""
import sys

OPS = []


def op(name, body, decl=""):
    OPS.append((name, body, decl))


def res(stmt):
    return stmt + " A.ok := Boolean'Pos (R.Success); A.err := Interfaces.Integer_32 (R.ErrorCode);"


def okb(stmt):
    return stmt + " A.ok := Boolean'Pos (OK);"


op("UNC_ENC", "UPER_Enc_UnConstraintWholeNumber (bs, A.v);")
op("UNC_DEC", okb("UPER_Dec_UnConstraintWholeNumber (bs, A.v, OK);"))
op("UNCMAX_DEC", okb("UPER_Dec_UnConstraintWholeNumberMax (bs, A.v, A.max, OK);"))
op("SEMI_ENC", "UPER_Enc_SemiConstraintWholeNumber (bs, A.v, A.min);")
op("SEMI_DEC", okb("UPER_Dec_SemiConstraintWholeNumber (bs, A.v, A.min, OK);"))
op("SEMIPOS_ENC", "UPER_Enc_SemiConstraintPosWholeNumber (bs, A.uv, A.umin);")
op("SEMIPOS_DEC", okb("UPER_Dec_SemiConstraintPosWholeNumber (bs, A.uv, A.umin, OK);"))
op("CON_ENC", "UPER_Enc_ConstraintWholeNumber (bs, A.v, A.min, N);")
con = "case A.width is when 8 => declare x : Integer_8; begin UPER_Dec_ConstraintWholeNumberInt8 (bs, x, Integer_8 (A.min), Integer_8 (A.max), N, OK); A.v := Asn1Int (x); end;"
con += " when 16 => declare x : Integer_16; begin UPER_Dec_ConstraintWholeNumberInt16 (bs, x, Integer_16 (A.min), Integer_16 (A.max), N, OK); A.v := Asn1Int (x); end;"
con += " when 32 => declare x : Integer_32; begin UPER_Dec_ConstraintWholeNumberInt32 (bs, x, Integer_32 (A.min), Integer_32 (A.max), N, OK); A.v := Asn1Int (x); end;"
con += " when 33 => declare x : Integer; begin UPER_Dec_ConstraintWholeNumberInt (bs, x, Integer (A.min), Integer (A.max), N, OK); A.v := Asn1Int (x); end;"
con += " when others => UPER_Dec_ConstraintWholeNumber (bs, A.v, A.min, A.max, N, OK); end case;"
op("CON_DEC", okb(con))
op("CONPOS_ENC", "UPER_Enc_ConstraintPosWholeNumber (bs, A.uv, A.umin, N);")
con = "case A.width is "
for w in (8, 16, 32):
    con += "when %d => declare x : Unsigned_%d; begin UPER_Dec_ConstraintPosWholeNumberUInt%d (bs, x, Unsigned_%d (A.umin), Unsigned_%d (A.umax), N, OK); A.uv := Asn1UInt (x); end; " % (w, w, w, w, w)
op("CONPOS_DEC", okb(con + "when others => UPER_Dec_ConstraintPosWholeNumber (bs, A.uv, A.umin, A.umax, N, OK); end case;"))
op("REAL_ENC", "UPER_Enc_Real (bs, A.d);")
op("REAL_DEC", res("if A.width = 32 then declare f : Standard.Float; begin UPER_Dec_Real_fp32 (bs, f, R); A.d := Long_Float (f); end; else UPER_Dec_Real (bs, A.d, R); end if;"))
for k in ("32_big", "64_big", "32_little", "64_little"):
    op("IEEE_%s_ENC" % k, "Acn_Enc_Real_IEEE754_%s_endian (bs, A.d);" % k)
    d = "Acn_Dec_Real_IEEE754_%s_endian (bs, A.d, R);" % k
    if k.startswith("32"):
        d = "if A.width = 32 then declare f : Standard.Float; begin Acn_Dec_Real_IEEE754_%s_endian_fp32 (bs, f, R); A.d := Long_Float (f); end; else %s end if;" % (k, d)
    op("IEEE_%s_DEC" % k, res(d))
op("OCT_ENC", "BitStream_EncodeOctetString (bs, Data (1 .. Integer'Max (1, Integer (A.max))), L, N, Integer (A.min), Integer (A.max));")
op("OCT_DEC", okb("BitStream_DecodeOctetString (bs, Data (1 .. Integer'Max (1, Integer (A.max))), L, N, Integer (A.min), Integer (A.max), OK);"))
op("OCTN_ENC", "BitStream_EncodeOctetString_no_length (bs, Data (1 .. Integer'Max (1, L)), L);")
op("OCTN_DEC", okb("BitStream_DecodeOctetString_no_length (bs, Data (1 .. Integer'Max (1, L)), L, OK);"))
op("BIT_ENC", "BitStream_EncodeBitString (bs, Data (1 .. Integer'Max (1, (L + 7) / 8)), L, N, Integer (A.min), Integer (A.max));")
op("BIT_DEC", okb("BitStream_DecodeBitString (bs, Data (1 .. Integer'Max (1, (Integer (A.max) + 7) / 8)), L, N, Integer (A.min), Integer (A.max), OK);"))
op("BITS_ENC", "BitStream_AppendBits (bs, Data (1 .. (L + 7) / 8), L);")
op("BITS_DEC", okb("BitStream_ReadBits (bs, Data (1 .. (L + 7) / 8), L, OK);"))
op("BITA_ENC", "BitStream_AppendBitArray (bs, Bits (1 .. L), L);")
op("BITA_DEC", okb("BitStream_ReadBitArray (bs, Bits (1 .. L), L, OK); FromBits;"))
op("BYTE_ENC", "BitStream_AppendByte (bs, Asn1Byte (A.uv), A.n = 1);")
op("BYTE_DEC", okb("declare b : Asn1Byte; begin BitStream_DecodeByte (bs, b, OK); A.uv := Asn1UInt (b); end;"))
op("PART_ENC", "BitStream_AppendPartialByte (bs, Asn1Byte (A.uv), N, A.m = 1);")
op("PART_DEC", "declare b : Asn1Byte; begin BitStream_ReadPartialByte (bs, b, N); A.uv := Asn1UInt (b); end;")
op("PEEKPART", "A.uv := Asn1UInt (BitStream_PeekPartialByte (bs, Integer (A.m), N));")
op("PEEKBYTE", "A.uv := Asn1UInt (BitStream_PeekByte (bs, Integer (A.m)));")
op("NIB_DEC", okb("declare b : Asn1Byte; begin BitStream_ReadNibble (bs, b, OK); A.uv := Asn1UInt (b); end;"))
op("BITNULL_DEC", okb("BitStream_ReadBits_nullterminated (bs, Bits (1 .. Integer (A.max)), L, Term (1 .. (Integer (A.m) + 7) / 8), Integer (A.m), OK); FromBits;"))
for k, p in (("OID", "ObjectIdentifier"), ("ROID", "RelativeOID")):
    op(k + "_ENC", "%s_uper_encode (bs, Oid);" % p)
    op(k + "_DEC", res("%s_uper_decode (bs, Oid, R);" % p) + " FromOid;")
    op(k + "_VALID", "A.ok := Boolean'Pos (%s_isValid (Oid));" % p)
op("OID_EQ", "A.ok := Boolean'Pos (ObjectIdentifier_equal (Oid, Oid2));")
op("OCT_EQ", "A.ok := Boolean'Pos (OctetString_equal (L, Integer (A.m), Data (1 .. L), Data2 (1 .. Integer (A.m))));")
op("BIT_EQ", "A.ok := Boolean'Pos (BitString_equal (L, Integer (A.m), Bits (1 .. L), Bits2 (1 .. Integer (A.m))));")
op("STR_EQ", "A.ok := Boolean'Pos (String_Equal (Str, Str2));")
op("STR_LEN", "A.v := Asn1Int (getStringSize (Str));")
op("REAL_EQ", "A.ok := Boolean'Pos (Asn1Real_Equal (A.d, A.d2));")
op("BOOL_ENC", "UPER_Enc_Boolean (bs, A.n = 1);")
op("BOOL_DEC", okb("declare b : Boolean; begin UPER_Dec_boolean (bs, b, OK); A.uv := Boolean'Pos (b); end;"))
P1, P2 = "Bits (1 .. L)", "Bits2 (1 .. L)"
op("TRUE_ENC", "Acn_Enc_Boolean_true_pattern (bs, A.n = 1, %s);" % P1)
op("TRUE_DEC", res("declare b : Boolean; begin Acn_Dec_Boolean_true_pattern (bs, b, %s, R); A.uv := Boolean'Pos (b); end;" % P1))
op("FALSE_ENC", "Acn_Enc_Boolean_false_pattern (bs, A.n = 1, %s);" % P1)
op("FALSE_DEC", res("declare b : Boolean; begin Acn_Dec_Boolean_false_pattern (bs, b, %s, R); A.uv := Boolean'Pos (b); end;" % P1))
op("TF_ENC", "Acn_Enc_Boolean_true_false_pattern (bs, A.n = 1, %s, %s);" % (P1, P2))
op("TF_DEC", res("declare b : Boolean; begin Acn_Dec_Boolean_true_false_pattern (bs, b, %s, %s, R); A.uv := Boolean'Pos (b); end;" % (P1, P2)))
op("NULL_ENC", "Acn_Enc_NullType_pattern2 (bs, %s);" % P1)
op("NULL_DEC", res("Acn_Dec_NullType_pattern2 (bs, %s, R);" % P1))
op("NULLV_DEC", res("declare x : Asn1NullType; begin Acn_Dec_NullType_pattern (bs, x, %s, R); end;" % P1))
op("S0_ENC", "Acn_Enc_String_Ascii_FixSize (bs, Str);")
op("S0_DEC", res("Acn_Dec_String_Ascii_FixSize (bs, Str, R);") + " FromStr;")
op("S1_ENC", "Acn_Enc_String_Ascii_Null_Terminated (bs, Term (1 .. TL), Str);")
op("S1_DEC", res("Acn_Dec_String_Ascii_Null_Terminated (bs, Term (1 .. TL), Str, R);") + " FromStr;")
op("S2_ENC", "Acn_Enc_String_Ascii_External_Field_Determinant (bs, Str);")
op("S2_DEC", res("Acn_Dec_String_Ascii_External_Field_Determinant (bs, A.v, Str, R);") + " FromStr;")
op("S3_ENC", "Acn_Enc_String_Ascii_Internal_Field_Determinant (bs, A.min, N, Str);")
op("S3_DEC", res("Acn_Dec_String_Ascii_Internal_Field_Determinant (bs, A.min, A.max, N, Str, R);") + " FromStr;")
op("S4_ENC", "Acn_Enc_String_CharIndex_External_Field_Determinant (bs, Set, Integer (A.m), Str);")
op("S4_DEC", res("Acn_Dec_String_CharIndex_External_Field_Determinant (bs, Set, Integer (A.m), A.v, Str, R);") + " FromStr;")
op("S5_ENC", "Acn_Enc_String_CharIndex_Internal_Field_Determinant (bs, Set, Integer (A.m), A.min, N, Str);")
op("S5_DEC", res("Acn_Dec_String_CharIndex_Internal_Field_Determinant (bs, Set, Integer (A.m), A.min, A.max, N, Str, R);") + " FromStr;")


def acn(c, ada, uns, extra, widths, dec):
    """extra: argument of encoder and decoder (or None); dec: which bounds the decoder takes"""
    v, b = ("A.uv", "A.umin, A.umax") if uns else ("A.v", "A.min, A.max")
    op("ENC_" + c, "Acn_Enc_%s (bs, %s%s);" % (ada, v, ", " + extra if extra else ""))
    if dec is None:
        return
    t = "UInt" if uns else "Int"; at = "Unsigned" if uns else "Integer"; lo, hi = ("A.umin", "A.umax") if uns else ("A.min", "A.max")
    s = "case A.width is "
    for w in widths:
        bb = {"both": "%s_%d (%s), %s_%d (%s), " % (at, w, lo, at, w, hi), "min": "%s_%d (%s), " % (at, w, lo), "": ""}[dec]
        s += "when %d => declare x : %s_%d; begin Acn_Dec_%s%s%d (bs, x, %s%sR); %s := %s (x); end; " % (w, at, w, ada, t, w, bb, extra + ", " if extra else "", v, "Asn1UInt" if uns else "Asn1Int")
    bb = {"both": b + ", ", "min": lo + ", ", "": ""}[dec]
    s += "when others => Acn_Dec_%s (bs, %s, %s%sR); end case;" % (ada, v, bb, extra + ", " if extra else "")
    op("DEC_" + c, res(s))


W = (8, 16, 32)
acn("PositiveInteger_ConstSize", "Int_PositiveInteger_ConstSize", True, "N", W, "both")
acn("TwosComplement_ConstSize", "Int_TwosComplement_ConstSize", False, "N", W, "both")
for s, u in (("PositiveInteger", True), ("TwosComplement", False)):
    acn(s + "_ConstSize_8", "Int_%s_ConstSize_8" % s, u, None, (8,), "both")
    for e in ("big", "little"):
        acn("%s_%s_endian_16" % (s, e), "Int_%s_ConstSize_%s_endian_16" % (s, e), u, None, (8, 16), "both")
        acn("%s_%s_endian_32" % (s, e), "Int_%s_ConstSize_%s_endian_32" % (s, e), u, None, W, "both")
        acn("%s_%s_endian_64" % (s, e), "Int_%s_ConstSize_%s_endian_64" % (s, e), u, None, W, "both")
acn("PositiveInteger_VarSize", "Int_PositiveInteger_VarSize_LengthEmbedded", True, None, (), "min")
acn("TwosComplement_VarSize", "Int_TwosComplement_VarSize_LengthEmbedded", False, None, (), "")
acn("BCD_ConstSize", "Int_BCD_ConstSize", True, "N", W, "both")
acn("BCD_VarSize_NullTerminated", "Int_BCD_VarSize_NullTerminated", True, None, W, "both")
acn("UInt_ASCII_ConstSize", "UInt_ASCII_ConstSize", True, "N", W, "both")
acn("SInt_ASCII_ConstSize", "Int_ASCII_ConstSize", False, "N", W, "both")
acn("UInt_ASCII_VarSize_NullTerminated", "UInt_ASCII_VarSize_NullTerminated", True, "Term (1 .. TL)", W, "")
acn("SInt_ASCII_VarSize_NullTerminated", "Int_ASCII_VarSize_NullTerminated", False, "Term (1 .. TL)", W, "")
acn("UInt_ASCII_VarSize_LengthEmbedded", "UInt_ASCII_VarSize_LengthEmbedded", True, None, (), None)
acn("SInt_ASCII_VarSize_LengthEmbedded", "Int_ASCII_VarSize_LengthEmbedded", False, None, (), None)
for k in ("U8", "U16_BE", "U32_BE", "U64_BE", "U16_LE", "U32_LE", "U64_LE", "I8", "I16_BE", "I32_BE", "I64_BE", "BOOL1", "ConstSize", "TwosComplement_ConstSize"):
    n = ", N" if "ConstSize" in k else ""
    # reserve, advance by m bits, patch with uv, patch again with umin
    op("DET_" + k, "Acn_InitDet_%s (bs, Det%s); bs.Current_Bit_Pos := bs.Current_Bit_Pos + Integer (A.m); Acn_PatchDet_%s (A.uv, bs, Det%s, R); A.err := Boolean'Pos (R.Success); Acn_PatchDet_%s (A.umin, bs, Det%s, R); A.ok := Boolean'Pos (R.Success);" % (k, n, k, n, k, n))
op("DET_STR", "Acn_InitDet_IA5String_FixSize (bs, Det, N); bs.Current_Bit_Pos := bs.Current_Bit_Pos + Integer (A.m); Acn_PatchDet_IA5String_FixSize (Str, bs, N, Det, R); A.err := Boolean'Pos (R.Success); Acn_PatchDet_IA5String_FixSize (Str2, bs, N, Det, R); A.ok := Boolean'Pos (R.Success);")

HEAD = """with Interfaces; use Interfaces;
with Ada.Exceptions; use Ada.Exceptions;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding; use adaasn1rtl.encoding;
with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper;
with adaasn1rtl.encoding.acn; use adaasn1rtl.encoding.acn;
package body Glue is
   procedure Run (A : in out Args) is
      bs : Bitstream (Size_In_Bytes => Positive (A.size));
      OK : Boolean := True;
      R : ASN1_RESULT := (Success => True, ErrorCode => 0);
      N : constant Integer := Integer (A.n);
      L : Integer := Integer (A.len);
      TL : constant Integer := Integer (A.termLen);
      Data, Data2 : OctetBuffer (1 .. 512);
      Bits, Bits2 : BitArray (1 .. 4096) := (others => 0);
      Term : OctetBuffer (1 .. 16);
      Str : String (1 .. Integer (A.slen));
      Str2 : String (1 .. Integer (A.slen));
      Set : String (1 .. Integer (A.setLen));
      Oid, Oid2 : Asn1ObjectIdentifier;
      Det : AcnInsertedFieldRef;
      procedure FromBits is
      begin
         Data := (others => 0);
         for I in 0 .. 4095 loop
            if Bits (I + 1) = 1 then Data (I / 8 + 1) := Data (I / 8 + 1) or Shift_Left (Asn1Byte (1), 7 - I mod 8); end if;
         end loop;
      end FromBits;
      procedure FromStr is
      begin
         for I in Str'Range loop Data (I) := Asn1Byte (Character'Pos (Str (I))); end loop;
      end FromStr;
      procedure FromOid is
      begin
         A.arcCount := Integer_32 (Oid.Length);
         for I in 1 .. 20 loop A.arcs (I - 1) := Oid.values (I); end loop;
      end FromOid;
   begin
      A.ok := 1; A.err := 0;
      bs.Current_Bit_Pos := Natural (A.pos);
      for I in 1 .. Positive (A.size) loop bs.Buffer (I) := A.buf (I - 1); end loop;
      for I in 1 .. 512 loop Data (I) := A.data (I - 1); Data2 (I) := A.data2 (I - 1); end loop;
      for I in 0 .. 4095 loop
         Bits (I + 1) := BIT (Shift_Right (Data (I / 8 + 1), 7 - I mod 8) and 1);
         Bits2 (I + 1) := BIT (Shift_Right (Data2 (I / 8 + 1), 7 - I mod 8) and 1);
      end loop;
      for I in 1 .. 16 loop Term (I) := A.term (I - 1); end loop;
      for I in Str'Range loop Str (I) := Character'Val (Data (I)); Str2 (I) := Character'Val (Data2 (I)); end loop;
      for I in Set'Range loop Set (I) := Character'Val (A.set (I - 1)); end loop;
      Oid.Length := Integer (A.arcCount); Oid2.Length := Integer (A.arcCount2);
      for I in 1 .. 20 loop Oid.values (I) := A.arcs (I - 1); Oid2.values (I) := A.arcs2 (I - 1); end loop;
      case A.op is
"""
TAIL = """         when others => null;
      end case;
      for I in 1 .. Positive (A.size) loop A.buf (I - 1) := bs.Buffer (I); end loop;
      A.pos := Integer_32 (bs.Current_Bit_Pos);
      A.len := Integer_32 (L);
      for I in 1 .. 512 loop A.data (I - 1) := Data (I); end loop;
   exception
      when E : others =>
         A.ok := 2;
         declare
            M : constant String := Exception_Name (E) & ": " & Exception_Message (E);
         begin
            for I in A.exc'Range loop A.exc (I) := 0; end loop;
            for I in M'Range loop
               exit when I - M'First > 180;
               A.exc (I - M'First) := Unsigned_8 (Character'Pos (M (I)));
            end loop;
         end;
   end Run;
end Glue;
"""
SPEC = """with Interfaces; use Interfaces;
package Glue is
   type Arr16 is array (0 .. 15) of Unsigned_8;
   type Arr128 is array (0 .. 127) of Unsigned_8;
   type Arr200 is array (0 .. 199) of Unsigned_8;
   type Arr512 is array (0 .. 511) of Unsigned_8;
   type ArrBuf is array (0 .. 4095) of Unsigned_8;
   type ArrArc is array (0 .. 19) of Unsigned_64;
   type Args is record
      v, min, max : Integer_64;
      uv, umin, umax : Unsigned_64;
      d, d2 : Long_Float;
      arcs, arcs2 : ArrArc;
      op, width, n, m, len, slen, termLen, setLen, arcCount, arcCount2, size, pos, ok, err : Integer_32;
      data, data2 : Arr512;
      term : Arr16;
      set : Arr128;
      exc : Arr200;
      buf : ArrBuf;
   end record;
   pragma Convention (C, Args);
   procedure Run (A : in out Args);
   pragma Export (C, Run, "ada_run");
end Glue;
"""


def main(d):
    with open(d + "/glue.ads", "w") as f:
        f.write(SPEC)
    with open(d + "/glue.adb", "w") as f:
        f.write(HEAD)
        for i, (n, b, _) in enumerate(OPS):
            f.write("         when %d => %s\n" % (i, b))
        f.write(TAIL)
    with open(d + "/ops.h", "w") as f:
        f.write("enum { %s };\nstatic const char *const adaNames[] = { %s };\n" % (", ".join("A_" + n for n, _, _ in OPS), ", ".join('"%s"' % n for n, _, _ in OPS)))


main(sys.argv[1])
