"""Driver for the Ada code generated from a specification: reads "index codec hex" lines, decodes and re-encodes."""
import os, subprocess
from . import run as R
from .cdrv import cn

MAIN = r'''
with Ada.Text_IO; use Ada.Text_IO;
with Ada.Exceptions; use Ada.Exceptions;
with Interfaces; use Interfaces;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding;
with %(pkg)s;
procedure drv is
   HX : constant String := "0123456789abcdef";
   function Dig (C : Character) return Integer is (if C <= '9' then Character'Pos (C) - 48 else Character'Pos (C) - 87);
   procedure Fill (B : in out OctetBuffer; H : String) is
      K : Integer := H'First;
   begin
      for I in B'Range loop
         if K < H'Last then
            B (I) := Asn1Byte (Dig (H (K)) * 16 + Dig (H (K + 1)));
            K := K + 2;
         else
            B (I) := 0;
         end if;
      end loop;
   end Fill;
   procedure Out_Hex (B : OctetBuffer; Bits : Integer) is
   begin
      Put (" -");
      for I in B'First .. B'First + (Bits + 7) / 8 - 1 loop
         Put (HX (Integer (B (I)) / 16 + 1));
         Put (HX (Integer (B (I)) mod 16 + 1));
      end loop;
   end Out_Hex;
%(procs)s
   Line : String (1 .. 400_000);
   Last : Natural;
begin
   while not End_Of_File loop
      Get_Line (Line, Last);
      declare
         P : Integer := 1;
         Ix : Integer;
         C : Character;
      begin
         while Line (P) /= ' ' loop P := P + 1; end loop;
         Ix := Integer'Value (Line (1 .. P - 1));
         C := Line (P + 1);
         begin
            case Ix is
%(cases)s
               when others => null;
            end case;
         exception
            when E : others => Put ("exception " & Exception_Name (E) & " " & Exception_Message (E));
         end;
         New_Line;
         Flush;
      end;
   end loop;
end drv;
'''

BODY = r'''
   procedure P_%(i)d_%(c)s (H : String) is
      V : %(t)s;
      S : %(st)s;
      R : ASN1_RESULT := (Success => False, ErrorCode => 0);
   begin
      if H = "S" then
         Put (Integer'Image (%(sz)s));
         return;
      end if;
      Fill (S.Buffer, H);
      S.Current_Bit_Pos := 0;
      %(dec)s (V, S, R);
      if not R.Success then
         Put ("0" & Integer'Image (R.ErrorCode));
         return;
      end if;
      Put ("1" & Integer'Image (S.Current_Bit_Pos));
      declare
         Q : %(st)s;
         E : ASN1_RESULT;
      begin
         %(enc)s (V, Q, E);
         Put (if E.Success then " 1" else " 0");
         if E.Success then
            Put (Integer'Image (Q.Current_Bit_Pos));
            Out_Hex (Q.Buffer, Q.Current_Bit_Pos);
         end if;
      end;
   end P_%(i)d_%(c)s;
'''


class BuiltAda:
    """generated Ada code of one specification with its driver; codecs: letters out of U, A"""
    def __init__(self, spec, d, opts, codecs, files=None):
        self.spec, self.dir = spec, d
        os.makedirs(d, exist_ok=True)
        names = []
        for fn, text in (files or R.default_files(spec, opts)):
            with open(os.path.join(d, fn), "w") as f: f.write(text)
            names.append(fn)
        rc, txt = R.asn1scc(["-Ada"] + list(opts) + ["-o", "out"] + names, d)
        if rc != 0: raise R.CompileError(rc, txt)
        self.log, self.out = txt, os.path.join(d, "out")
        self.idx = {n: i for i, n in enumerate(spec.types)}
        procs, cases, pk = [], [], cn(spec.name)
        for n, i in self.idx.items():
            if n in spec.params: continue
            t = pk + "." + cn(n)
            for c in codecs:
                a = "_ACN" if c == "A" else ""
                procs.append(BODY % dict(i=i, c=c, t=t, st=t + ("_ACN_Stream" if a else "_uPER_Stream"), sz=t + ("_REQUIRED_BYTES_FOR_ACN_ENCODING" if a else "_REQUIRED_BYTES_FOR_ENCODING"), dec=t + a + "_Decode", enc=t + a + "_Encode"))
            cases.append("when %d => %s" % (i, " ".join("if C = '%s' then P_%d_%s (Line (P + 3 .. Last)); end if;" % (c, i, c) for c in codecs)))
        with open(os.path.join(self.out, "drv.adb"), "w") as f: f.write(MAIN % dict(pkg=pk, procs="".join(procs), cases="\n".join(cases)))
        for c in (["gnatmake", "-q", "-gnat2012", "-O0", "-gnatws", "drv.adb"],):
            p = subprocess.run(c, cwd=self.out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise R.CodeError("Ada: " + p.stdout[:3000])
        self.exe = os.path.join(self.out, "drv")

    def run(self, lines, timeout=120):
        res = []
        while len(res) < len(lines):
            p = subprocess.Popen(["bash", "-c", "ulimit -s 1000000; exec " + self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            try:
                o, e = p.communicate("\n".join(lines[len(res):]) + "\n", timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
            got = o.split("\n")[:-1][:len(lines) - len(res)]
            res += got
            if len(res) < len(lines): res.append("crash %s %s" % (p.returncode, e[-300:].replace("\n", " ")))
        return res
